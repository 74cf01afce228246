"""Monitors over the abstract runs of both handshake roles: each watches the events raised by tls_model and
keeps what it needs in monitor slots of the abstract state."""
from terms import *
from engine import Bug
from tls_model import PHN, I
import tls_model as TM2

EMPTYC = EMPTY


def segl(c):
    """segments of a content as a list of (kind, term)"""
    return list(segs_of(c))


def is_app(t, name):
    return t.op == "app" and t.a[0] == name


def fname(t):
    """last path component of an opaque function's name"""
    return t.a[0].split("::")[-1] if t.op == "app" and type(t.a[0]) is str else ""


def has_phi(t):
    return any(s.a[0][0] == "phi" for s in syms(t) if s.op == "sym" and type(s.a[0]) is tuple)


# ---------------------------------------------------------------------- hkdf structure
def parse_info(info):
    """(length, label, context) of an HkdfLabel, or None"""
    segs = segl(info)
    bs = []          # leading bytes (None when not constant)
    i = 0
    raw = []
    for s in segs:
        raw.append(s)
    kb = known_prefix(info)
    if len(kb) < 3 or any(x is None for x in kb[:3]):
        return None
    n = kb[0] * 256 + kb[1]
    ll = kb[2]
    if len(kb) < 3 + ll + 1:
        return None
    lab = kb[3:3 + ll]
    if any(x is None for x in lab):
        return None
    cl = kb[3 + ll]
    ctx = subseq(info, I(4 + ll), length(info))
    return n, bytes(lab), cl, ctx


class HK:
    """app(expand, hashlen, prk, info, n) taken apart"""
    __slots__ = ("h", "prk", "label", "ctx", "n", "decl", "ok", "why")

    def __init__(self, t):
        _, h, prk, info, n = t.a
        self.h, self.prk, self.n = h, prk, n
        p = parse_info(info)
        self.ok = p is not None
        if p:
            self.decl, self.label, cl, self.ctx = p
            self.why = None
            L = length(self.ctx)
            if L is not None and L.op == "i" and cl is not None and L.a[0] != cl:
                self.why = "context length byte %s for a context of %s bytes" % (cl, L.a[0])
            if n.op == "i" and n.a[0] != self.decl:
                self.why = "declared length %s, expanded %s" % (self.decl, n.a[0])


def hk(t):
    if is_app(t, "expand"):
        r = HK(t)
        if r.ok:
            return r
    return None


def known_prefix(c):
    """constant bytes at the start of a content (None for an unknown byte)"""
    out = []
    for op, x in segl(c):
        if op == "E":
            out.append(x.a[0] & 255 if x.op == "i" else None)
        else:
            k = known_elems(x) if length(x).op == "i" and x.op == "seq" else None
            if k is None:
                break
            out += [y.a[0] & 255 if y.op == "i" else None for y in k]
    return out


def zeros(t):
    b = const_bytes(t)
    return b is not None and not any(b)


def empty_digest(t):
    return is_app(t, "digest") and t.a[2] is EMPTY


TRAFFIC = {b"c hs traffic": ("client", "hs"), b"s hs traffic": ("server", "hs"),
           b"c ap traffic": ("client", "ap"), b"s ap traffic": ("server", "ap")}
P13 = b"tls13 "


def unlabel(b):
    return b[6:] if b.startswith(P13) else None


def classify_secret(t):
    """(role, epoch) of a traffic secret term with the list of deviations from the key schedule, or None"""
    x = hk(t)
    if not x:
        return None
    lab = unlabel(x.label)
    r = TRAFFIC.get(lab) if lab is not None else None
    if r is None:
        for k, v in TRAFFIC.items():
            if x.label.endswith(k) or (lab and lab.replace(b" ", b"") == k.replace(b" ", b"")):
                r = v
        if r is None:
            return None
    return r


def secret_problems(t, want_ctx):
    """deviations of a traffic secret from RFC 8446 section 7.1; want_ctx is the transcript it must be bound to"""
    out = []
    x = hk(t)
    lab = unlabel(x.label)
    r = TRAFFIC.get(lab) if lab is not None else None
    if r is None:
        out.append("label %r is not a traffic secret label" % x.label)
        return out, None
    if x.why:
        out.append(x.why)
    hl = x.h
    if hl.op == "i" and x.n is not hl:
        out.append("traffic secret of %s bytes under a %s-byte hash" % (show(x.n, 1), show(hl, 1)))
    if not is_app(x.ctx, "digest"):
        if not has_phi(x.ctx):
            out.append("context of %r is not a transcript hash" % lab)
    else:
        if want_ctx is not None and x.ctx.a[2] is not want_ctx:
            out.append("context of %r is not the hash of the transcript %s" % (
                lab.decode(), "ClientHello..ServerHello" if r[1] == "hs" else "ClientHello..server Finished"))
        if x.ctx.a[1] is not hl:
            out.append("context of %r hashed with another hash" % lab)
    ikm = None
    if r[1] == "ap":
        m = x.prk
        if not is_app(m, "hmac"):
            if not has_phi(m):
                out.append("master secret is not an HKDF-Extract")
            return out, None
        if m.a[1] is not hl:
            out.append("master secret extracted with another hash")
        if not zeros(m.a[3]):
            out.append("master secret input is not zeros")
        elif length(m.a[3]) is not hl:
            out.append("master secret input has not the hash length")
        d = hk(m.a[2])
        hs = derived(d, hl, "handshake secret", out)
    else:
        hs = x.prk
    if hs is None:
        return out, None
    if not is_app(hs, "hmac"):
        if not has_phi(hs):
            out.append("handshake secret is not an HKDF-Extract")
        return out, None
    if hs.a[1] is not hl:
        out.append("handshake secret extracted with another hash")
    ikm = hs.a[3]
    d = hk(hs.a[2])
    es = derived(d, hl, "early secret", out)
    if es is not None:
        if not is_app(es, "hmac"):
            out.append("early secret is not an HKDF-Extract")
        else:
            if not zeros(es.a[2]):
                out.append("early secret salt is not zeros")
            if not zeros(es.a[3]) or length(es.a[3]) is not hl:
                out.append("early secret input is not hash-length zeros")
            if es.a[1] is not hl:
                out.append("early secret extracted with another hash")
    return out, ikm


def derived(d, hl, what, out):
    if d is None:
        out.append("salt is not Derive-Secret(%s, \"derived\", \"\")" % what)
        return None
    if d.label != P13 + b"derived":
        out.append("salt derived from the %s with label %r" % (what, d.label))
    if not empty_digest(d.ctx) or d.ctx.a[1] is not hl:
        out.append("salt derived from the %s with a context that is not the hash of nothing" % what)
    if d.n is not hl or d.h is not hl:
        out.append("salt derived from the %s has not the hash length" % what)
    if d.why:
        out.append(d.why)
    return d.prk


# ---------------------------------------------------------------------- base
class Mon:
    def __init__(self, side, scen=()):
        self.side = side
        self.peer = "server" if side == "client" else "client"
        self.scen = {}
        for j, fn, d, n in scen:
            self.scen[fn if j != "type" else "suite"] = n
        self.viol = {}
        self.cnt = {}
        self.samples = []
        self.out = []
        self.prog = None

    def v(self, eng, fr, key, msg):
        w = eng.where(fr) if fr is not None else {"fn": "?", "line": 0, "file": "?", "chain": ""}
        k = "%s/%s" % (self.side, key)
        if k not in self.viol:
            self.viol[k] = "%s [%s:%s in %s; call chain %s; configuration %s]" % (
                msg, w["file"], w["line"], w["fn"], w["chain"], ",".join("%s=%s" % x for x in sorted(self.scen.items(), key=str)))

    def n(self, what, k=1):
        self.cnt[what] = self.cnt.get(what, 0) + k

    def finish(self, eng, results):
        pass

    def run_on(self, eng, results):
        """continue the analysis after the handshake"""

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    @staticmethod
    def phase(st):
        return PHN[st.tag("phase")]


def is_ok(v):
    return v.op == "agg" and v.a[1] == 0


class Track(Mon):
    """keeps the running transcript and its snapshots"""

    def on_transcript(self, eng, st, fr, before, added, dyn, ref):
        if not dyn:
            return
        tr = concat(before, added)
        st.mset("tr", tr)
        ph = self.phase(st)
        if len(ph) == 2 and ph[-1] == 2:
            st.mset("tr@SH", tr)
            st.mset("CH", before)
            st.mset("SH", added)
        if ph and ph[-1] == 20 and ph.count(20) == 1:
            st.mset("tr@SF", tr)
        self.added(eng, st, fr, before, added)

    def added(self, eng, st, fr, before, added):
        pass


SUITES = {"TLS_AES_128_GCM_SHA256": (16, 32), "TLS_AES_256_GCM_SHA384": (32, 48), "TLS_CHACHA20_POLY1305_SHA256": (32, 32)}


def key_of(t):
    """(role, epoch, HK of the key) of a record key term, or None"""
    x = hk(t)
    if not x:
        return None
    r = classify_secret(x.prk)
    if r is None:
        return None
    return r + (x,)


class C05(Track):
    """keys, IVs, finished keys and secrets follow the key schedule"""

    def keyed(self, eng, st, fr, what, recv, key, nonce):
        self.n("keys examined")
        x = hk(key)
        if x is None:
            if has_phi(key) or key.op in ("fld", "deref"):
                self.n("keys undecided")
                return
            return self.v(eng, fr, "key:not-hkdf", "the %s key is not an HKDF-Expand-Label output: %s" % (what, show(key, 4)[:200]))
        if x.label != P13 + b"key":
            self.v(eng, fr, "key:label", "the %s key is expanded with label %r" % (what, x.label))
        if length(x.ctx) is not I(0):
            self.v(eng, fr, "key:context", "the %s key has a non-empty context" % what)
        if x.why:
            self.v(eng, fr, "key:info", x.why)
        self.suite(eng, st, fr, what, recv, x)
        s = x.prk
        r = classify_secret(s)
        if r is None:
            if has_phi(s) and not is_app(s, "expand"):
                self.n("keys undecided")
                return
            return self.v(eng, fr, "key:secret", "the %s key is not derived from a traffic secret: %s" % (what, show(s, 3)[:200]))
        want = st.m("tr@SH" if r[1] == "hs" else "tr@SF")
        p, ikm = secret_problems(s, want)
        for m in p:
            self.v(eng, fr, "secret:%s:%s" % (r, m), m)
        if ikm is not None:
            self.ecdhe(eng, st, fr, ikm)
        self.iv(eng, st, fr, what, x, nonce)
        self.n("%s:%s" % r)

    def suite(self, eng, st, fr, what, recv, x):
        w = None
        if recv.op == "agg":
            d = eng.p.T[recv.a[0]]["d"].split("::")[-1]
            names = set()
            for y in subterms(recv):
                if y.op == "agg":
                    T = eng.p.T[y.a[0]]
                    if T["k"] == "adt" and T["a"] == "enum" and T["d"].endswith("CipherSuite"):
                        names.add(T["v"][y.a[1]]["n"])
            if not names and self.scen.get("suite"):
                names = {self.scen["suite"]}
            if len(names) == 1:
                w = SUITES.get(next(iter(names)))
            if d == "Poly1305" or "ChaCha" in d:
                w = w or (32, 32)
        if w is None:
            self.n("suite undecided")
            return
        self.n("suite decided")
        if x.n.op == "i" and x.n.a[0] != w[0]:
            self.v(eng, fr, "key:length", "the %s key has %s bytes, the negotiated suite %s takes %s" % (what, x.n.a[0], self.scen.get("suite", ""), w[0]))
        if x.h.op == "i" and x.h.a[0] != w[1]:
            self.v(eng, fr, "key:hash", "keys derived with a %s-byte hash, the negotiated suite uses %s" % (x.h.a[0], w[1]))

    def iv(self, eng, st, fr, what, x, nonce):
        ivs = set()
        for y in subterms(nonce):
            z = hk(y)
            if z and z.n.op == "i" and z.n.a[0] != x.h.a[0] and y is not None and z.label != P13 + b"key" and classify_secret(y) is None \
                    and z.label not in (P13 + b"derived",):
                ivs.add(y)
        if not ivs:
            b = const_bytes(nonce)
            if b is not None:
                self.v(eng, fr, "iv:constant", "the %s nonce is a constant" % what)
            self.n("iv undecided")
            return
        for y in ivs:
            z = hk(y)
            if z.prk is not x.prk:
                if subterm_of(y, x.prk):
                    continue
                self.v(eng, fr, "iv:secret", "the %s IV comes from another secret than the key" % what)
            if z.label != P13 + b"iv":
                self.v(eng, fr, "iv:label", "the %s IV is expanded with label %r" % (what, z.label))
            if length(z.ctx) is not I(0):
                self.v(eng, fr, "iv:context", "the %s IV has a non-empty context" % what)
            if z.n is not I(12):
                self.v(eng, fr, "iv:length", "the %s IV has %s bytes" % (what, show(z.n, 1)))
            if z.why:
                self.v(eng, fr, "iv:info", z.why)
            self.n("iv decided")

    def ecdhe(self, eng, st, fr, ikm):
        """the ECDHE input: a scalar multiplication of this connection's own private key with the peer's share"""
        key = ("ecdhe", ikm)
        if key in self.cnt:
            return
        self.cnt[key] = 1
        mul = [y for y in subterms(ikm) if y.op == "app" and type(y.a[0]) is str and y.a[0].split("::")[-1] in ("multiply", "mul", "x25519")]
        if not mul:
            if has_phi(ikm):
                self.n("ecdhe undecided")
                return
            return self.v(eng, fr, "ecdhe:none", "the handshake secret's input is not an ECDH result: %s" % show(ikm, 4)[:200])
        top = mul[0]
        rngs = {s for s in syms(top) if type(s.a[0]) is tuple and str(s.a[0][0]).startswith("rng:")}
        rx = {s for s in syms(top) if type(s.a[0]) is tuple and s.a[0][0] in ("rx", "pt")}
        if not rngs and not has_phi(top):
            self.v(eng, fr, "ecdhe:own", "the shared secret does not use this connection's own random private key")
        if not rx and not has_phi(top):
            self.v(eng, fr, "ecdhe:peer", "the shared secret does not use the peer's key share")
        own = st.m("ownpriv")
        self.n("ecdhe decided")

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        self.keyed(eng, st, fr, "encryption", recv, key, nonce)
        if length(plain).op == "i" or plain.op == "seq":
            k = known_prefix(plain)
            if k[:1] == [20] and plain.op == "seq" and len(plain.a) > 1:
                self.sent_finished(eng, st, fr, plain)

    def on_decrypt(self, eng, st, fr, recv, key, nonce, ct, aad, tag):
        self.keyed(eng, st, fr, "decryption", recv, key, nonce)

    def sent_finished(self, eng, st, fr, plain):
        self.n("finished sent")
        f = subseq(plain, I(4), sub(length(plain), I(1)))
        m, p = finished_of(f)
        if m is None:
            if not has_phi(f):
                self.v(eng, fr, "finished:sent-not-hmac", "the Finished message sent is not an HMAC under a finished key: %s" % show(f, 3)[:200])
            return
        for x in p:
            self.v(eng, fr, "finished:sent:" + x, x)

    def finish(self, eng, results):
        self.n("results", len(results))


def subterm_of(y, t):
    return y is t or any(z is y for z in subterms(t))


def finished_of(f):
    """((role, epoch, content hashed), deviations) of a Finished value"""
    if not is_app(f, "hmac"):
        return None, []
    _, h, k, msg = f.a
    p = []
    x = hk(k)
    if x is None:
        return None, []
    if x.label != P13 + b"finished":
        p.append("finished key expanded with label %r" % x.label)
    if length(x.ctx) is not I(0):
        p.append("finished key has a non-empty context")
    if x.n is not h or x.h is not h:
        p.append("finished key has not the hash length")
    if x.why:
        p.append(x.why)
    if not is_app(msg, "digest"):
        p.append("Finished value is not over a transcript hash")
        return None, p
    if msg.a[1] is not h:
        p.append("Finished value over another hash")
    r = classify_secret(x.prk)
    if r is None:
        if not has_phi(x.prk):
            p.append("finished key is not derived from a traffic secret")
        return None, p
    return (r[0], r[1], msg.a[2], x.prk), p


# ---------------------------------------------------------------------- helpers for the checks below
def origin(t):
    """kinds of symbols a term depends on: rx (received), pt (decrypted), rng, phi, param"""
    out = set()
    for s in syms(t):
        k = s.a[0]
        k = k[0] if type(k) is tuple else k
        k = str(k)
        out.add("rng" if k.startswith("rng:") else k if k in ("rx", "rxn", "pt", "phi", "sig", "stale") else
                "param" if k.startswith(("client:", "server:")) else k)
    return out


def received(t):
    return bool(origin(t) & {"rx", "pt"})


def maybe_received(t):
    return bool(origin(t) & {"rx", "pt", "phi", "stale"})


def calls(t, name):
    return [y for y in subterms(t) if fname(y) == name]


def path_of(st):
    return ",".join(str(x) for x in PHN[st.tag("phase")])


MSG = {1: "ClientHello", 2: "ServerHello", 8: "EncryptedExtensions", 11: "Certificate", 13: "CertificateRequest",
       15: "CertificateVerify", 20: "Finished", -1: "?", "*": "..."}


def names(st):
    return " ".join(MSG.get(x, str(x)) for x in PHN[st.tag("phase")])


class Auth(Track):
    """CertificateVerify of the peer, CA signature of its certificate, custom verify function"""
    me = None
    label = None

    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.good = {}
        self.reasons = {}

    def added(self, eng, st, fr, before, added):
        st.mset("last", added)

    def judge_cv(self, eng, st, fr, key, sig, hash):
        """deviations of a signature check from the CertificateVerify of the peer; None: it is not one"""
        want = b" " * 64 + b"TLS 1.3, " + self.label + b" CertificateVerify\0"
        p = []
        if not is_app(hash, "digest"):
            if has_phi(hash):
                self.n("signature checks undecided")
                return [], key
            return ["the hash verified is not a digest"], key
        if hash.a[1] is not I(32):
            p.append("the signed content is hashed with a %s-byte hash" % show(hash.a[1], 1))
        c = hash.a[2]
        kp = known_prefix(c)
        if None in kp or bytes(kp) != want:
            if not has_phi(c) or (kp and None not in kp and not want.startswith(bytes(kp))):
                p.append("the signed content does not start with 64 spaces, the context string \"TLS 1.3, %s CertificateVerify\" and a zero byte" % self.label.decode())
        else:
            d = subseq(c, I(len(want)), length(c))
            tr = st.m("tr")
            if is_app(d, "digest"):
                if d.a[2] is not tr:
                    if has_phi(d.a[2]) and tr is not None and has_phi(tr):
                        self.n("transcripts undecided")
                    else:
                        p.append("the transcript hash signed is not the transcript up to and including the peer's Certificate")
            elif not has_phi(d):
                p.append("the signed content does not end with the transcript hash")
        ph = self.phase(st)
        if ph and ph[-1] not in (11, "*", -1):
            p.append("the signature is checked over a transcript that ends with %s" % MSG.get(ph[-1], ph[-1]))
        gp = [y for y in subterms(key) if fname(y) == "get_public_key"]
        if not gp and not has_phi(key):
            p.append("the key is not the public key of a certificate")
        if not maybe_received(key):
            p.append("the key does not come from a certificate the peer sent")
        elif received(key) and "phi" not in origin(key) and st.m("last") is not None and not has_phi(st.m("last")):
            if not (syms(key) & syms(st.m("last"))):
                p.append("the key does not come from the Certificate message just added to the transcript")
        if not maybe_received(sig):
            p.append("the signature does not come from the peer")
        return p, key

    def on_assume(self, eng, st, fr, t, val):
        g = self.good.get(t)
        if g is not None and val:
            st.settag(g[0], 1)
            if g[1] is not None:
                st.mset(g[0] + "@", g[1])


class C01(Auth):
    label = b"server"

    def on_verify(self, eng, st, fr, key, sig, hash, val):
        self.n("signature checks")
        p, k = self.judge_cv(eng, st, fr, key, sig, hash)
        if p:
            for m in p:
                self.reasons.setdefault(m, eng.where(fr))
        else:
            self.good[val] = ("cv", None)
            self.sample("CertificateVerify check in %s" % eng.where(fr)["fn"])

    def finish(self, eng, results):
        for st, v in results:
            if is_ok(v):
                self.n("accepting paths")
                if not st.tag("cv"):
                    why = "; ".join("%s (at %s:%s)" % (m, w["file"], w["line"]) for m, w in self.reasons.items())
                    self.v(eng, None, "ok-without-proof:" + path_of(st),
                           "ClientConnection::connect returns Ok on a path whose transcript is (%s) without a successful "
                           "CertificateVerify check of the server%s" % (names(st), ": " + why if why else ""))
                else:
                    self.n("accepting paths with proof")
            else:
                self.n("rejecting paths")


class C02(Auth):
    label = b"client"

    def x509(self, t):
        """the certificate term a public key was taken from"""
        for y in subterms(t):
            if fname(y) == "get_public_key":
                a = y.a[1]
                return a.a[0] if a.op == "vref" else a
        return None

    def on_verify(self, eng, st, fr, key, sig, hash, val):
        self.n("signature checks")
        if not maybe_received(key):
            # a check under a configured key: the CA's
            p = []
            if "param" not in origin(key):
                p.append("CA check: the key is not the configured CA's")
            if not maybe_received(sig):
                p.append("CA check: the signature does not come from the client's certificate")
            if not is_app(hash, "digest"):
                if not has_phi(hash):
                    p.append("CA check: the hash verified is not a digest")
            elif not maybe_received(hash.a[2]):
                p.append("CA check: the content verified does not come from the client's certificate")
            # the certificate whose signature field was checked
            cert = None
            s = sig
            while s.op in ("fld", "deref", "vref"):
                s = s.a[0]
            if not p:
                self.good[val] = ("ca", s)
                self.sample("CA check in %s" % eng.where(fr)["fn"])
            for m in p:
                self.reasons.setdefault(m, eng.where(fr))
            return
        p, k = self.judge_cv(eng, st, fr, key, sig, hash)
        x = self.x509(key)
        if x is not None:
            ca, cu = st.m("ca@"), st.m("custom@")
            if ca is not None and not self.same(ca, x):
                p.append("the CertificateVerify key is not that of the certificate checked against the CA")
            if cu is not None and not self.same(cu, x):
                p.append("the CertificateVerify key is not that of the certificate the custom function approved")
        for m in p:
            self.reasons.setdefault(m, eng.where(fr))
        if not p:
            self.good[val] = ("cv", None)

    @staticmethod
    def root(t):
        while t.op in ("fld", "deref", "vref"):
            t = t.a[0]
        return t

    def same(self, a, b):
        a, b = self.root(a), self.root(b)
        if a is b or has_phi(a) or has_phi(b) or "stale" in origin(a) | origin(b):
            return True
        return bool(syms(a) & syms(b))

    def on_dyncall(self, eng, st, fr, fv, args):
        if "param" not in origin(fv):
            return
        self.n("custom verify calls")
        t = mk("app", "dyncall", fv, *args)
        if any(maybe_received(a) for a in args):
            self.good[t] = ("custom", args[0])
        else:
            self.reasons.setdefault("the custom function is not given the client's certificate", eng.where(fr))

    def finish(self, eng, results):
        for st, v in results:
            if not is_ok(v):
                self.n("rejecting paths")
                continue
            self.n("accepting paths")
            why = "; ".join("%s (at %s:%s)" % (m, w["file"], w["line"]) for m, w in self.reasons.items())
            why = ": " + why if why else ""
            bad = 0
            for tag, what in (("cv", "a successful CertificateVerify check of the client"),
                              ("ca", "a successful check of the CA's signature on the client's certificate"),
                              ("custom", "the approval of the configured custom verify function")):
                if tag == "custom" and self.scen.get("client_cert_custom_verify_fn") != "Some":
                    continue
                if not st.tag(tag):
                    bad = 1
                    self.v(eng, None, "ok-without-%s:%s" % (tag, path_of(st)),
                           "ServerConnection::accept with a client CA returns Ok on a path whose transcript is (%s) without %s%s" % (
                               names(st), what, why))
            if not bad:
                self.n("accepting paths with proof")


class C03(Track):
    """the peer's Finished"""

    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.reasons = {}

    def judge(self, eng, st, fr, a, b):
        """a, b: the two sides of an equality; True when it is the whole Finished of the peer compared with its definition"""
        m = None
        for x, y in ((a, b), (b, a)):
            if is_app(x, "hmac"):
                m = x, y
                break
        if m is None:
            for x, y in ((a, b), (b, a)):
                if x.op in ("sub",) and any(is_app(z, "hmac") for z in subterms(x) if z is not x) and is_app(x.a[0], "hmac"):
                    self.reasons.setdefault("only a part of the Finished value is compared", eng.where(fr))
            return False
        f, y = m
        r, p = finished_of(f)
        if r is None and not p:
            return False
        if not maybe_received(y) or subterm_of(f, y):
            self.reasons.setdefault("the expected Finished value is compared with something the peer did not send", eng.where(fr))
            return False
        if r is not None:
            role, ep, content, prk = r
            if role != self.peer:
                p.append("the Finished value expected is computed with this side's own traffic secret")
            if ep != "hs":
                p.append("the Finished value expected is computed with an application traffic secret")
            tr = st.m("tr")
            if content is not tr and not (has_phi(content) and tr is not None and has_phi(tr)):
                p.append("the Finished value expected is not over the transcript up to just before it")
            p += secret_problems(prk, st.m("tr@SH"))[0]
        for x in p:
            self.reasons.setdefault(x, eng.where(fr))
        return not p

    def on_assume(self, eng, st, fr, t, val):
        if t.op == "eq":
            a, b = t.a
            if val and self.judge(eng, st, fr, a, b):
                st.settag("fin", 1)
                self.n("Finished comparisons")
                self.sample("peer Finished compared in %s" % eng.where(fr)["fn"])
            self.elemwise(eng, st, a, b)

    def on_bin(self, eng, st, fr, op, a, b):
        self.elemwise(eng, st, a, b)

    def elemwise(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "elem" and is_app(x.a[0], "hmac") and y.op == "elem" and maybe_received(y):
                r, p = finished_of(x.a[0])
                if r is not None and not p and r[0] == self.peer and r[1] == "hs":
                    st.settag("finel", 1)
                    st.mset("finy", y.a[0])

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        k = known_prefix(plain)
        if k[:1] == [20] and plain.op == "seq" and len(plain.a) > 1:
            self.n("Finished messages sent")
            f = subseq(plain, I(4), sub(length(plain), I(1)))
            r, p = finished_of(f)
            if r is None:
                if not p and not has_phi(f):
                    p.append("the Finished message sent is not an HMAC under a finished key")
            else:
                role, ep, content, prk = r
                if role != self.side:
                    p.append("the Finished message sent uses the peer's traffic secret")
                if ep != "hs":
                    p.append("the Finished message sent uses an application traffic secret")
                tr = st.m("tr")
                # the transcript may already contain the message itself
                own = subseq(plain, I(0), sub(length(plain), I(1)))
                if content is not tr and tr is not concat(content, own) and not (has_phi(content) and tr is not None and has_phi(tr)):
                    p.append("the Finished message sent is not over the transcript at that point")
                p += secret_problems(prk, st.m("tr@SH"))[0]
            for x in p:
                self.v(eng, fr, "sent:" + x, x)

    def finish(self, eng, results):
        for st, v in results:
            if not is_ok(v):
                self.n("rejecting paths")
                continue
            self.n("accepting paths")
            if st.tag("fin"):
                self.n("accepting paths after the peer's Finished")
                continue
            if st.tag("finel"):
                y = st.m("finy")
                L = eng.lookup(st, length(y)) if y is not None else None
                if L in (32, 48) or y is None or has_phi(y):
                    self.n("accepting paths undecided")
                    continue
                self.reasons.setdefault("the lengths of the received and the expected Finished value are not compared", {"file": "?", "line": 0})
            why = "; ".join("%s (at %s:%s)" % (m, w["file"], w["line"]) for m, w in self.reasons.items())
            self.v(eng, None, "ok-without-finished:" + path_of(st),
                   "%s returns Ok on a path whose transcript is (%s) without the peer's Finished compared with its definition%s" % (
                       "ClientConnection::connect" if self.side == "client" else "ServerConnection::accept", names(st), ": " + why if why else ""))


# ---------------------------------------------------------------------- after the handshake
def stream_place(eng, v, depth=0):
    """path of field indices from the value returned to the stream that offers tls_read/tls_write"""
    if v.op != "agg":
        return None
    T = eng.p.T[v.a[0]]
    if T["k"] == "adt" and T["d"].split("::")[-1] == "TlsStream":
        return []
    if depth < 4:
        for i, x in enumerate(v.a[2:]):
            r = stream_place(eng, x, depth + 1)
            if r is not None:
                return [i] + r
    return None


def connections(eng, results, limit=8):
    """(state, stream value) of the connections handed to the caller, one per kind of handshake"""
    out, seen = [], set()
    for st, v in results:
        if not is_ok(v) or len(out) >= limit:
            continue
        pl = stream_place(eng, v)
        if pl is None:
            continue
        x = v
        for i in pl:
            x = x.a[2 + i]
        k = st.tag("phase")
        if (k, x) in seen:
            continue
        seen.add((k, x))
        out.append((st, x))
    return out


def unprotected(eng, st, x):
    """the stream value with its record protection removed"""
    for i, (fn, ty) in enumerate(eng.p.T[x.a[0]]["v"][0]["f"]):
        if fn == "protection":
            pr = eng.deep(st, x.a[2 + i])
            if pr.op == "agg" and eng.p.T[pr.a[0]]["d"].endswith("Option"):
                a = list(x.a)
                a[2 + i] = mk("agg", pr.a[0], 0)
                return mk("agg", *a)
    return None


def call_stream(eng, st, x, op, data=None):
    """interpret one tls_read/tls_write on the connection; returns [(state, result)], the stream stays in memory"""
    f = eng.p.one("TlsStream::" + op)
    st = st.copy()
    if x is not None:
        st.mem[("stream",)] = x
    args = []
    for i in range(f["argc"]):
        t = eng.p.T[f["lt"][1 + i]]
        e = eng.p.T[t["e"]] if t["k"] == "ref" else None
        if e is not None and e["k"] == "adt" and e["d"].split("::")[-1] == "TlsStream":
            args.append(mk("ref", ("stream",)))
        elif t["k"] == "ref" and t.get("mut"):
            st.mem[("buf", i)] = mk("sym", ("userbuf",))
            args.append(mk("ref", ("buf", i)))
        else:
            args.append(mk("vref", data if data is not None else mk("sym", ("appdata",))))
    return eng.run_fn(f, args, st, eng.ctx(0, 0, f["id"]), 0, False)


class C07(Track):
    """direction and epoch of the record keys"""

    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.c03 = C03(side, scen)
        self.after = False

    def on_assume(self, eng, st, fr, t, val):
        self.c03.on_assume(eng, st, fr, t, val)

    def on_bin(self, eng, st, fr, op, a, b):
        self.c03.on_bin(eng, st, fr, op, a, b)

    def use(self, eng, st, fr, what, key, plain):
        k = key_of(key)
        self.n("record key uses")
        if k is None:
            self.n("record key uses undecided")
            return None
        role, ep, x = k
        want = self.side if what == "encrypt" else self.peer
        if role != want:
            self.v(eng, fr, "%s:direction" % what, "%s %ss with the %s's %s traffic key" % (
                self.side, what, role, "handshake" if ep == "hs" else "application"))
        if ep == "ap" and not st.tag("fin") and not st.tag("finel"):
            self.v(eng, fr, "%s:early-application-key" % what,
                   "application traffic keys are in use before the peer's Finished was verified")
        if ep == "hs" and self.after:
            self.v(eng, fr, "%s:handshake-key-after" % what, "application data is handled under handshake traffic keys")
        self.n("%s %s %s" % (what, role, ep))
        return ep

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        ep = self.use(eng, st, fr, "encrypt", key, plain)
        if ep is None:
            return
        L = length(plain)
        t = eng.lookup(st, elem(plain, sub(L, I(1))))
        if type(t) is not int:
            self.n("content types undecided")
            return
        self.n("content type %d under %s" % (t, ep))
        if t == 22 and ep == "ap":
            self.v(eng, fr, "handshake-under-application-key", "a handshake message is protected under application traffic keys")
        if t == 23 and ep == "hs":
            self.v(eng, fr, "data-under-handshake-key", "application data is protected under handshake traffic keys")

    def on_decrypt(self, eng, st, fr, recv, key, nonce, ct, aad, tag):
        ep = self.use(eng, st, fr, "decrypt", key, None)
        st.settag("dec", {"hs": 1, "ap": 2}.get(ep, 0))

    def run_on(self, eng, results):
        self.after = True
        for st, x in connections(eng, results):
            for op in ("tls_write", "tls_read"):
                call_stream(eng, st, x, op)
                self.n("connections continued with " + op)

    def finish(self, eng, results):
        pass


# ---------------------------------------------------------------------- bytes on the wire
def records_of(eng, st, data):
    """split written bytes into records: list of (type, header, body segments or None); None when not parsable.
    A record is recognised by its five header bytes and the content that follows up to the next header"""
    kp = []
    segs = segl(data)
    items = []      # ("b", term) single byte or ("c", content)
    for op, x in segs:
        if op == "E":
            items.append(("b", x))
        else:
            k = known_elems(x) if x.op == "seq" else None
            if k is not None:
                items += [("b", y) for y in k]
            else:
                items.append(("c", x))
    return items


class C09(Track):
    """every byte written to the socket is accounted for"""

    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.after = self.bare = False

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        st.settag("keyed", 1)

    def on_decrypt(self, eng, st, fr, recv, key, nonce, ct, aad, tag):
        st.settag("keyed", 1)

    def on_tcp_write(self, eng, st, fr, data, partial):
        self.n("socket writes")
        if self.bare:
            self.v(eng, fr, "bare-write", "bytes are written to the socket of a stream without record protection")
            return
        items = records_of(eng, st, data)
        i = 0
        while i < len(items):
            k, x = items[i]
            if k == "c":
                if has_phi(x) and not is_app(x, "ct") and not is_app(x, "tag"):
                    self.n("written content undecided")
                    # a buffer joined over several paths: it must not be built from unprotected application data
                    if any(str(s.a[0]).startswith("('appdata") for s in syms(x)):
                        self.v(eng, fr, "appdata-in-clear", "application data reaches the socket outside an AEAD record")
                    i += 1
                    continue
                self.v(eng, fr, "unframed", "bytes that are not part of a record reach the socket: %s" % show(x, 3)[:160])
                return
            t = eng.lookup(st, x)
            if i + 5 > len(items) or any(q[0] != "b" for q in items[i:i + 5]):
                self.v(eng, fr, "header", "a record header is not five bytes: %s" % show(data, 3)[:160])
                return
            body = items[i + 5:]
            if type(t) is not int:
                self.n("record types undecided")
                return
            if t == 23:
                if len(body) >= 2 and body[0][0] == "c" and is_app(body[0][1], "ct") and body[1][0] == "c" and is_app(body[1][1], "tag"):
                    self.n("protected records written")
                    i += 7
                    continue
                if body and body[0][0] == "c" and has_phi(body[0][1]):
                    self.n("protected records undecided")
                    i += 6
                    continue
                self.v(eng, fr, "type-23-not-protected", "a record of type application_data is not the output of the AEAD: %s" % show(data, 3)[:200])
                return
            hi, lo = eng.lookup(st, items[i + 3][1]), eng.lookup(st, items[i + 4][1])
            n = hi * 256 + lo if type(hi) is int and type(lo) is int else None
            self.n("plaintext records of type %s" % t)
            if self.after:
                self.v(eng, fr, "plaintext-after", "a plaintext record of type %s is written on an established connection" % t)
            if t == 20:
                pass
            elif t == 21:
                if st.tag("keyed") or any(ty not in (1, 2) for ty in self.phase(st)):
                    self.v(eng, fr, "alert-in-clear", "an alert is sent in the clear although keys are installed")
            elif t == 22:
                m = eng.lookup(st, body[0][1]) if body and body[0][0] == "b" else None
                if m not in (1, 2):
                    self.v(eng, fr, "handshake-in-clear:%s" % m, "handshake message %s is sent in the clear" % MSG.get(m, m))
                    return
            else:
                self.v(eng, fr, "type:%s" % t, "a record of type %s is written" % t)
                return
            # skip the body: constant length, or everything up to the next recognisable header
            j = i + 5
            left = n
            while j < len(items) and (left is None or left > 0):
                q = items[j]
                if q[0] == "b":
                    if left is None and self.header_at(eng, st, items, j):
                        break
                    j += 1
                    left = left - 1 if left is not None else None
                else:
                    L = eng.lookup(st, length(q[1]))
                    left = left - L if left is not None and type(L) is int else None
                    j += 1
            i = j

    @staticmethod
    def header_at(eng, st, items, j):
        if j + 3 > len(items) or any(q[0] != "b" for q in items[j:j + 3]):
            return False
        a = [eng.lookup(st, q[1]) for q in items[j:j + 3]]
        return a[0] in (20, 21, 22, 23) and a[1] == 3 and a[2] in (1, 3)

    def run_on(self, eng, results):
        self.after = True
        oks = connections(eng, results)
        for st, x in oks:
            for op in ("tls_write", "tls_read"):
                call_stream(eng, st, x, op)
                self.n("connections continued with " + op)
        for st, x in oks[:1]:
            bare = unprotected(eng, st, x)
            if bare is None:
                continue
            self.bare = True
            for op in ("tls_write", "tls_read"):
                for s2, r in call_stream(eng, st, bare, op):
                    self.n("%s without protection" % op)
                    if is_ok(r):
                        self.v(eng, None, "bare-ok:" + op, "TlsStream::%s reports success on a stream without record protection" % op)
            self.bare = False

    def finish(self, eng, results):
        for st, v in results:
            if not is_ok(v):
                continue
            pl = stream_place(eng, v)
            if pl is None:
                self.n("returned value undecided")
                continue
            x = v
            for i in pl:
                x = x.a[2 + i]
            self.n("connections returned")
            T = eng.p.T[x.a[0]]["v"][0]["f"]
            for i, (fn, ty) in enumerate(T):
                if fn == "protection":
                    pr = eng.deep(st, x.a[2 + i])
                    if pr.op == "agg":
                        if pr.a[1] == 0 or not pr.a[2:]:
                            self.v(eng, None, "no-protection:" + path_of(st), "a connection is handed to the caller without record protection (transcript %s)" % names(st))
                        else:
                            self.app_keys(eng, st, pr.a[2])
                    else:
                        self.n("protection undecided")

    def app_keys(self, eng, st, pr):
        if pr.op != "agg":
            return
        for i, (fn, ty) in enumerate(eng.p.T[pr.a[0]]["v"][0]["f"]):
            if fn == "application_keys":
                k = pr.a[2 + i]
                if k.op == "agg" and k.a[1] == 0:
                    self.v(eng, None, "no-application-keys:" + path_of(st),
                           "a connection is handed to the caller without application keys (transcript %s)" % names(st))
                elif k.op == "agg":
                    self.n("connections with application keys")
                else:
                    self.n("application keys undecided")


class C04(Track):
    """the transcript is the sequence of handshake messages exchanged"""
    CLIENT = {(1, 2, 8, 11, 15, 20), (1, 2, 8, 13, 11, 15, 20, 11), (1, 2, 8, 13, 11, 15, 20, 11, 15)}
    SERVER = {(1, 2, 8, 11, 15, 20), (1, 2, 8, 13, 11, 15, 20, 11, 15)}
    SERVER_OPT = {(1, 2, 8, 13, 11, 15, 20), (1, 2, 8, 13, 11, 15, 20, 11)}

    # ------------------------------------------------ queues of contents waiting for their counterpart
    @staticmethod
    def q(st, name):
        t = st.m(name)
        if t is None:
            return ()
        return t.a if t.op == "q" else None

    def meet(self, eng, st, fr, mine, other, c, what):
        a, b = self.q(st, mine), self.q(st, other)
        if a is None or b is None:
            self.n("own messages undecided")
            return
        if b:
            if b[0] is c:
                st.mset(other, mk("q", *b[1:]))
                self.n("own messages matched")
                return
            if has_phi(c) or has_phi(b[0]):
                st.mset(other, mk("q", *b[1:]))
                self.n("own messages undecided")
                return
            self.v(eng, fr, "own-mismatch:%s" % (known_prefix(c)[:1] or ["?"])[0],
                   "the handshake messages hashed and sent differ: %s %s, but next is %s" % (what, show(c, 2)[:120], show(b[0], 2)[:120]))
            st.mset(other, mk("q", *b[1:]))
            return
        if len(a) < 6:
            st.mset(mine, mk("q", *(a + (c,))))

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        L = length(plain)
        t = eng.lookup(st, elem(plain, sub(L, I(1))))
        if t == 22:
            self.meet(eng, st, fr, "qs", "qt", subseq(plain, I(0), sub(L, I(1))), "sending")

    def on_tcp_write(self, eng, st, fr, data, partial):
        o = st.m("own0")
        if o is None and not self.phase(st):
            if st.m("wr0") is None and eng.lookup(st, elem(data, I(0))) == 22:
                st.mset("wr0", data)
        elif o is not None and not st.tag("own0ok"):
            self.cmp0(eng, st, fr, data, o)

    def cmp0(self, eng, st, fr, data, o):
        d = subseq(data, I(5), add(I(5), length(o)))
        if eng.lookup(st, elem(data, I(0))) == 22 or True:
            if d is o:
                self.n("hello matched")
            elif has_phi(d) or has_phi(o):
                self.n("hello undecided")
            else:
                t = eng.lookup(st, elem(data, I(0)))
                if t == 21:
                    return
                self.v(eng, fr, "hello-mismatch", "the hello hashed is not the hello sent: hashed %s, sent %s" % (show(o, 2)[:120], show(d, 2)[:120]))
        st.settag("own0ok", 1)

    # ------------------------------------------------ received messages
    def on_called(self, eng, st, fr, f, vals, rv):
        if stdkey_of(f["d"]) == "Handshake::from_raw" and is_ok(rv):
            if st.tag("unc"):
                st.settag("skipped", 1)
            st.settag("unc", 1)

    def on_assume(self, eng, st, fr, t, val):
        if t.op == "eq" and val and any(is_app(x, "hmac") for x in t.a) and any(maybe_received(x) and not is_app(x, "hmac") for x in t.a):
            st.settag("unc", 0)

    def added(self, eng, st, fr, before, added):
        c = added
        t = eng.lookup(st, elem(c, I(0)))
        self.n("messages added")
        if maybe_received(c) and c.op != "seq":
            st.settag("unc", 0)
            return self.received(eng, st, fr, c, t)
        # an own message
        if t is None or type(t) is not int and t.op != "i":
            st.settag("ownunk", 1)
        ph = self.phase(st)
        if t in (1, 2) and ph in ((1,), (1, 2)):
            w = st.m("wr0")
            if w is not None:
                self.cmp0(eng, st, fr, w, c)
            else:
                st.mset("own0", c)
            return
        self.meet(eng, st, fr, "qt", "qs", c, "hashing")

    def received(self, eng, st, fr, c, t):
        if c.op != "sub":
            self.n("received messages undecided")
            return
        X, a, b = c.a
        n = sub(b, a)
        kind = MSG.get(t, "?")
        hdr = {elem(X, add(a, I(k))) for k in (1, 2, 3)}
        used = {y for y in subterms(n) if y.op == "elem" and y.a[0] is X}
        if n.op == "i" or not used:
            if has_phi(n) or has_phi(X):
                self.n("received messages undecided")
            elif n.op == "i":
                self.n("received messages undecided")
            else:
                self.v(eng, fr, "extent:%s" % kind, "the %s hashed is not exactly one message (its extent %s does not follow from its length field)" % (kind, show(n, 4)[:160]))
        elif not (used & hdr):
            if not has_phi(n):
                self.v(eng, fr, "extent:%s" % kind, "the %s hashed is not exactly one message (its extent does not follow from its own length field)" % kind)
        else:
            self.n("received messages exact")
        # contiguity within one record
        last = st.m("last4")
        if last is not None and last.op == "sub" and last.a[0] is X and not has_phi(X):
            if a is last.a[1]:
                self.v(eng, fr, "twice:%s" % kind, "the %s is hashed twice" % kind)
            elif a is not last.a[2]:
                d = sub(a, last.a[2])
                if d.op == "i":
                    self.v(eng, fr, "gap:%s" % kind, "bytes of a record between two messages are neither hashed nor rejected")
        elif not has_phi(X) and X.op == "sym" and X.a[0][0] == "pt" and a is not I(0) and last is not None and last.a[0] is not X:
            if a.op == "i":
                self.v(eng, fr, "offset:%s" % kind, "the %s is hashed without its first %s bytes" % (kind, a.a[0]))
        st.mset("last4", c)

    def finish(self, eng, results):
        allowed = self.CLIENT if self.side == "client" else set(self.SERVER)
        if self.side == "server" and self.scen.get("client_cert_ca") == "Some":
            allowed |= self.SERVER_OPT      # whether the client may omit its certificate is C02's question
        for st, v in results:
            if not is_ok(v):
                self.n("rejecting paths")
                continue
            self.n("accepting paths")
            ph = self.phase(st)
            fn = "ClientConnection::connect" if self.side == "client" else "ServerConnection::accept"
            if -1 in ph and (st.tag("ownunk") or (self.side == "client" and 20 in ph and -1 not in ph[:ph.index(20)])):
                self.n("own messages undecided")
            elif -1 in ph:
                self.v(eng, None, "unchecked:" + path_of(st), "%s accepts a handshake in which a message of unchecked type is hashed (%s)" % (fn, names(st)))
            elif ph not in allowed:
                self.v(eng, None, "order:" + path_of(st), "%s accepts a handshake whose messages come in an order TLS 1.3 does not allow (%s)" % (fn, names(st)))
            if st.tag("skipped") or st.tag("unc"):
                self.v(eng, None, "skipped:" + path_of(st), "%s accepts a handshake in which a received handshake message was ignored (%s)" % (fn, names(st)))
            qt, qs = self.q(st, "qt"), self.q(st, "qs")
            if qt is None or qs is None:
                self.n("own messages undecided")
                continue
            if qt:
                self.v(eng, None, "hashed-not-sent:" + path_of(st), "%s hashes a handshake message it never sends (%s)" % (fn, names(st)))
            rest = [c for c in qs if not (self.side == "client" and known_prefix(c)[:1] == [20])]
            if rest:
                self.v(eng, None, "sent-not-hashed:" + path_of(st), "%s sends a handshake message that is not in its transcript (%s)" % (fn, names(st)))


def stdkey_of(d):
    from engine import stdkey
    return stdkey(d)


class C08(Track):
    """every protected record is authenticated with its header as received, and nothing else is released"""

    @staticmethod
    def engine():
        import lanes
        return lanes.LaneTls

    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.after = False

    @staticmethod
    def span(t):
        """(content, from, to) of a slice"""
        if t.op == "sub":
            return t.a[0], t.a[1], t.a[2]
        return t, I(0), length(t)

    def on_decrypt(self, eng, st, fr, recv, key, nonce, ct, aad, tag):
        self.n("records decrypted")
        st.settag("dec", 1)
        X, a, b = self.span(ct)
        Y, c, d = self.span(tag)
        if length(ct) is I(0) or ct.op == "seq" and not ct.a:
            X, a, b = Y, c, c
        if X is not Y or X.op == "seq":
            self.n("records undecided")
            return
        L = length(X)
        ok = True
        if length(tag) is not I(16) and sub(d, c) is not I(16):
            if sub(d, c).op == "i":
                self.v(eng, fr, "tag-length", "the tag compared has %s bytes instead of 16" % show(sub(d, c), 2))
            else:
                self.n("tag length undecided")
            ok = False
        if b is not c:
            self.v(eng, fr, "gap", "the tag does not follow the ciphertext: ciphertext up to %s, tag from %s" % (show(b, 3), show(c, 3)))
            ok = False
        base = None
        if a is not I(5):
            # the payload may have been sliced out of a record first
            self.n("payload offset undecided")
            return
        n = length(aad)
        if n is not I(5):
            if n.op == "i":
                self.v(eng, fr, "header-length", "the additional data has %s bytes; a record header has 5" % n.a[0])
            else:
                self.n("header undecided")
            return
        for i in range(5):
            x, y = elem(aad, I(i)), elem(X, I(i))
            if x is y:
                continue
            kx, ky = eng.lookup(st, x), eng.lookup(st, y)
            if type(kx) is int and kx == ky:
                continue
            if eng.lookup(st, mk("eq", *sorted((x, y), key=lambda t: (t.op in ("i", "b"), t.id)))) == 1:
                continue
            if has_phi(x) and not (syms(x) & syms(y)):
                self.n("header undecided")
                continue
            ok = False
            self.v(eng, fr, "header-byte-%d" % i,
                   "byte %d of the additional data is %s, not the byte of the header as received" % (i, show(x, 3)))
        if ok:
            self.n("records authenticated with their received header and full tag")
            self.sample("decrypt: aad = record[0..5], ciphertext = record[5..len-16], tag = record[len-16..len]")

    def on_aead_failed(self, eng, st, fr, what):
        if what == "decrypt":
            st.settag("aeadfail", 1)
            self.n("authentication failures followed")

    def added(self, eng, st, fr, before, added):
        if len(self.phase(st)) <= 2:
            return
        t = added
        while t.op in ("sub", "upd"):
            t = t.a[0]
        if t.op == "seq":
            for s in t.a:
                x = s.a[0]
                while x.op in ("sub",):
                    x = x.a[0]
                if s.op != "E" and x.op == "sym" and x.a[0][0] == "rx":
                    t = x
        if t.op == "sym":
            k = t.a[0][0]
            self.n("received handshake messages: " + str(k))
            if k == "rx":
                self.v(eng, fr, "handshake-in-clear", "a handshake message after ServerHello is taken from the socket without decryption")

    def run_on(self, eng, results):
        self.after = True
        for st, x in connections(eng, results):
            st = st.copy()
            for t in ("dec", "aeadfail"):
                st.settag(t, 0)
            for bare in (False, True):
                y = x
                if bare:
                    y = unprotected(eng, st, x)
                    if y is None:
                        continue
                for st2, v in call_stream(eng, st, y, "tls_read"):
                    self.n("reads of an unprotected stream" if bare else "reads followed")
                    bufs = [st2.mem[k] for k in st2.mem if k[0] == "buf"]
                    if not is_ok(v):
                        continue
                    changed = [b for b in bufs if not (b.op == "sym" and b.a[0] == ("userbuf",))]
                    if bare and changed:
                        self.v(eng, None, "read-unprotected", "tls_read delivers data on a stream without record protection")
                        continue
                    if st2.tag("aeadfail"):
                        self.v(eng, None, "read-after-failure", "tls_read returns Ok although a record failed authentication")
                    if changed and not st2.tag("dec"):
                        self.v(eng, None, "read-undecrypted", "tls_read delivers data without decrypting a record")
                    for b in changed:
                        k = {str(s.a[0][0]) for s in syms(b) if s.op == "sym" and type(s.a[0]) is tuple}
                        vals = {x for x in values_in(b)}
                        if "rx" in vals:
                            self.v(eng, None, "read-raw", "tls_read delivers bytes taken from the socket: %s" % show(b, 4))
                        self.n("data delivered from " + ",".join(sorted(vals - {"userbuf"})))

    def finish(self, eng, results):
        for st, v in results:
            if is_ok(v) and st.tag("aeadfail"):
                self.v(eng, None, "ok-after-failure", "the handshake succeeds although a record failed authentication")


def values_in(t):
    """kinds of symbols whose bytes make up a content (not those in indices or lengths)"""
    out = set()

    def go(t):
        if t.op == "seq":
            for s in t.a:
                go(s.a[0])
        elif t.op in ("sub", "elem"):
            go(t.a[0])
        elif t.op == "upd":
            go(t.a[0])
            for x in t.a[1:]:
                if type(x) is Term:
                    go(x)
        elif t.op == "sym":
            out.add(str(t.a[0][0]))
        elif t.op == "app":
            out.add("app")
    go(t)
    return out


# ---------------------------------------------------------------------- nonces
def byte_lane(t, i, w=8):
    """byte i of the integer t"""
    import lanes
    return lanes.lanes_of(t, w)[i]


class C06(Track):
    """nonce = IV xor counter, the counter of each key is 0, 1, 2, ..., and records leave in that order"""

    @staticmethod
    def engine():
        import lanes
        return lanes.NonceTls

    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.after = False

    def counter(self, eng, st, fr, what, key, nonce):
        """the counter a nonce was built from, or None when that cannot be told"""
        import lanes
        k = key_of(key)
        L = length(nonce)
        if k is None:
            self.n("nonces of unclassified keys")
            return None
        if L is not I(12):
            if L.op == "i":
                self.v(eng, fr, "%s:nonce-length" % what, "the nonce has %d bytes" % L.a[0])
            else:
                self.undecided(1, nonce)
            return None
        x = k[2]
        ivs = set()
        for i in range(12):
            for t in terms_of(elem(nonce, I(i))):
                if t.op == "elem" and is_app(t.a[0], "expand"):
                    ivs.add(t.a[0])
        if len(ivs) != 1:
            if not ivs and not any(undec(elem(nonce, I(i))) for i in range(12)):
                self.v(eng, fr, "%s:no-iv" % what, "the nonce is not combined with an IV: %s" % show(nonce, 4)[:200])
            else:
                self.undecided(2, nonce)
            return None
        iv = ivs.pop()
        y = hk(iv)
        if y is None or y.prk is not x.prk or unlabel(y.label) != b"iv":
            r = classify_secret(y.prk) if y else None
            self.v(eng, fr, "%s:iv" % what, "the nonce is built from %s, the key from the %s's %s traffic secret" % (
                "%r of the %s's %s traffic secret" % (y.label, r[0], r[1]) if r else show(iv, 3)[:150], k[0], k[1]))
            return None
        for i in range(12):
            t = elem(nonce, I(i))
            while t.op == "trunc":
                t = t.a[1]
            # x | c and x & c take the same value for different c wherever x has the bits set or clear
            if t.op == "bin" and t.a[0] in ("BitOr", "BitAnd"):
                a, b = (any(y is iv for y in subterms(z)) for z in t.a[1:3])
                c = t.a[2] if a else t.a[1]
                if a != b and c.op != "i" and not undec(c):
                    self.v(eng, fr, "%s:nonce-operator" % what, "byte %d of the nonce joins the IV and the record counter with %s, so different records get the same nonce" % (i, t.a[0]))
                    return None
        d = [lanes.bx([elem(nonce, I(i)), elem(iv, I(i))]) for i in range(12)]
        d = [mk("byteof", z.a[1], 0) if z.op == "trunc" and z.a[0] == 8 else z for z in d]
        if any(z.op != "i" or z.a[0] for z in d[:4]):
            self.v(eng, fr, "%s:nonce-prefix" % what, "one of the first four bytes of the nonce differs from the IV: %s" % [show(z, 3) for z in d[:4]])
            return None
        ctr = lanes.mk_lanes(list(reversed(d[4:])), 8)
        if ctr.op == "lanes":
            bs = lanes.lanes_of(ctr, 8)
            base = [z.a[0] for z in bs if z.op == "byteof"]
            if base and all(z.op in ("i", "byteof") and (z.op == "i" or z.a[0] is base[0]) for z in bs):
                self.v(eng, fr, "%s:nonce-counter" % what, "not every byte of the 64-bit record counter enters the nonce in its place: %s" % (
                    ["0" if z.op == "i" and not z.a[0] else "byte %s" % z.a[1] if z.op == "byteof" else show(z, 1) for z in reversed(bs)]))
                return None
            self.undecided(3, nonce)
            return None
        return ctr

    def undecided(self, k, t):
        self.n("nonces undecided")

    def slot(self, key):
        k = key_of(key)
        return ("due", k[0], k[1]) if k else None

    def due(self, st, key):
        """the counter due for the next record under key: a term, None when the key is new, False when not known"""
        sl = self.slot(key)
        v = st.m(sl) if sl else mk("tag", 0)
        if v is None:
            return None
        if v.op == "tag":
            return False
        if v.a[0] is key:
            return v.a[1]
        return False if has_phi(key) or has_phi(v.a[0]) else None

    def next_of(self, eng, st, fr, what, key, ctr):
        self.n("nonces decided")
        due = self.due(st, key)
        k = key_of(key)
        name = "%s %s" % (k[0], k[1])
        if due is None:
            if ctr.op == "i" and ctr.a[0] != 0:
                self.v(eng, fr, "%s:first" % what, "the first record under the %s key uses counter %d" % (name, ctr.a[0]))
            elif ctr.op != "i":
                self.n("counters undecided")
            else:
                self.n("counters starting at zero")
        elif due is False:
            self.n("counters undecided")
        elif due is not ctr:
            if undec(due) and undec(ctr) and not self.after and not (set(syms(due)) & set(syms(ctr))):
                self.n("counters undecided")
            else:
                self.v(eng, fr, "%s:counter" % what, "a record under the %s key uses counter %s, but the one due is %s" % (name, show(ctr, 3), show(due, 3)))
        else:
            self.n("counters in step")
        st.mset(self.slot(key), mk("due", key, add(ctr, I(1))))

    def lost(self, st, key):
        sl = self.slot(key)
        if sl:
            st.mset(sl, mk("tag", 0))

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        c = self.counter(eng, st, fr, "encrypt", key, nonce)
        if c is not None:
            self.next_of(eng, st, fr, "encrypt", key, c)
            self.sample("encrypt: nonce = iv xor BE64(%s)" % show(c, 2))
        else:
            self.lost(st, key)
        u = st.m("unsent")
        if u is not None:
            st.mset("unsent", concat(u, mk("app", "ct", key, nonce, plain, aad)))
        self.pend(st, st.tag("pend") + 1)

    @staticmethod
    def pend(st, n):
        """how many protected records wait: none, one, more"""
        st.settag("pend", min(n, 2))

    def on_decrypt(self, eng, st, fr, recv, key, nonce, ct, aad, tag):
        c = self.counter(eng, st, fr, "decrypt", key, nonce)
        if c is not None:
            self.next_of(eng, st, fr, "decrypt", key, c)
        else:
            self.lost(st, key)

    def added(self, eng, st, fr, before, added):
        if before is EMPTY and st.m("unsent") is None:
            st.mset("unsent", EMPTY)

    def on_tcp_write(self, eng, st, fr, data, partial):
        u = st.m("unsent")
        if u is None:
            self.n("writes undecided")
            return
        have = [x for op, x in segl(data) if op != "E" and is_app(x, "ct")]
        rest = [x for op, x in segl(data) if op != "E" and not is_app(x, "ct") and not is_app(x, "tag") and x.op != "seq"]
        due = [x for op, x in segl(u) if op != "E"]
        clear = all(is_app(x, "ct") for x in due)
        if clear and not (any(has_phi(x) for x in rest)):
            if have == due[:len(have)]:
                if have:
                    self.n("protected records sent in order", len(have))
                left = due[len(have):]
                if left and have:
                    pass
                st.mset("unsent", concat(*left) if left else EMPTY)
                self.pend(st, len(left))
                return
            if have and have[0] not in due:
                self.v(eng, fr, "order:again", "a protected record reaches the socket a second time")
            else:
                self.v(eng, fr, "order", "a protected record reaches the socket before %d older one(s) protected under the same key" % (due.index(have[0]) if have[0] in due else len(due)))
            st.mset("unsent", EMPTY)
            self.pend(st, 0)
            return
        if len(have) == 1 and due and due[-1] is have[0] and not any(has_phi(x) for x in rest) and st.tag("pend") > 1:
            self.v(eng, fr, "order", "a protected record reaches the socket before older one(s) protected under the same key")
        else:
            self.n("writes undecided")
        st.mset("unsent", EMPTY)
        self.pend(st, 0)

    def on_tcp_write_failed(self, eng, st, fr, **kw):
        # the connection is gone: what a later write would repeat reaches nobody
        st.mem.pop(("mon", "unsent"), None)

    def on_aead_failed(self, eng, st, fr, what):
        u = st.m("unsent")
        if what == "encrypt" and u is not None:
            self.pend(st, max(0, st.tag("pend") - 1) if st.tag("pend") < 2 else 1)
            l = [x for op, x in segl(u) if op != "E"]
            if l and is_app(l[-1], "ct"):
                st.mset("unsent", concat(*l[:-1]) if l[:-1] else EMPTY)
            else:
                st.mem.pop(("mon", "unsent"), None)

    def rebase(self, eng, st, x):
        """give every counter of the connection an unknown value; -> (state, stream, [(key term, path)])"""
        st = st.copy()
        found = []

        def go(t, path):
            if t.op != "agg":
                return t
            T = eng.p.T[t.a[0]]
            a = list(t.a)
            if T["k"] == "adt" and T.get("local") and T["a"] == "struct":
                fl = T["v"][0]["f"]
                kinds = [eng.p.T[ty] for n, ty in fl]
                ints = [i for i, q in enumerate(kinds) if q["k"] == "uint" or (q["k"] == "int")]
                key = [t.a[2 + i] for i in range(len(fl)) if i + 2 < len(t.a) and (hk(t.a[2 + i]) is not None and unlabel(hk(t.a[2 + i]).label) == b"key")]
                if len(ints) == 1 and len(key) == 1:
                    s = mk("sym", ("arg", "ctr-%d" % len(found)))
                    found.append((key[0], path, ints[0]))
                    a[2 + ints[0]] = s
                    if self.slot(key[0]):
                        st.mset(self.slot(key[0]), mk("due", key[0], s))
                    return mk("agg", *a)
            for i, y in enumerate(t.a[2:]):
                a[2 + i] = go(eng.deep(st, y) if y.op not in ("i", "b", "sym") else y, path + (i,))
            return mk("agg", *a)
        x = go(x, ())
        st.mset("unsent", EMPTY)
        return st, x, found

    def run_on(self, eng, results):
        self.after = True
        for st, x in connections(eng, results):
            st, x, found = self.rebase(eng, st, x)
            self.n("key counters generalised", len(found))
            for op in ("tls_write", "tls_read"):
                for s2, r in call_stream(eng, st, x, op):
                    self.n("%s calls from an arbitrary counter" % op)
                    if op == "tls_read" and not is_ok(r):
                        continue
                    y = eng.deep(s2, s2.mem.get(("stream",), x))
                    for key, path, i in found:
                        t = y
                        for j in path:
                            t = eng.deep(s2, t.a[2 + j]) if t.op == "agg" and len(t.a) > 2 + j else None
                            if t is None:
                                break
                        if t is None or t.op != "agg":
                            self.n("counters after a call undecided")
                            continue
                        have, due = t.a[2 + i], self.due(s2, key)
                        if not due:
                            self.n("counters after a call undecided")
                        elif have is not due:
                            k = key_of(key)
                            if has_phi(have) and has_phi(due) and not set(syms(have)) & set(syms(due)):
                                self.n("counters after a call undecided")
                                continue
                            self.v(eng, None, "%s:left" % op, "TlsStream::%s leaves the counter of the %s %s key at %s although the next record is due %s" % (
                                op, k[0], k[1], show(have, 3), show(due, 3)))
                        else:
                            self.n("counters after a call in step")


def terms_of(t, depth=6):
    yield t
    if depth and t.op not in ("sym",):
        for y in t.a:
            if type(y) is Term:
                yield from terms_of(y, depth - 1) if not is_app(t, "expand") else ()


def undec(t):
    return has_phi(t) or t.op in ("stale",)
