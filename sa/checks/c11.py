"""Abstract interpretation of both roles with logging enabled and with the key log configured or not: every place where
data leaves the process (socket writes outside an AEAD record, prints, file writes, file system and environment calls) is
checked for terms that contain key schedule outputs, shared secrets, ephemeral scalars or configured private keys
(information flow over symbolic terms; AEAD outputs, signatures, hashes and public multiples of the generator declassify).
What is written to the configured key log is split into lines, and each line's label, client random and secret are compared
with the secret's own label in the key schedule, the random in this connection's ClientHello and the transcripts."""
import monitors as MO
import run as R
import tls_model
from checks import c23
from local import last
from terms import *

TECHNIQUE = "information flow over symbolic terms (abstract interpretation of both roles, every sink)"
RULE = ("no term with a secret reaches a socket (outside AEAD), print, file or environment sink, except lines 'LABEL hex(client random) "
        "hex(traffic secret of that label)' in the file the configuration names")
ASSUME = ["the derived secrets are one-way; AEAD outputs, signatures, digests and public keys do not reveal them"]

LABEL = {"CLIENT_HANDSHAKE_TRAFFIC_SECRET": ("client", "hs"), "SERVER_HANDSHAKE_TRAFFIC_SECRET": ("server", "hs"),
         "CLIENT_TRAFFIC_SECRET_0": ("client", "ap"), "SERVER_TRAFFIC_SECRET_0": ("server", "ap")}
STOP = {"ct", "tag", "sig", "digest", "ecdsa_verify", "len"}
MUL = ("multiply", "mul", "x25519")
SINKS = ("std::fs::", "std::io::", "std::net::", "std::env::", "std::process::", "std::os::")


def multipliers(p):
    """the names of the functions of the curve modules whose results are computed with scalar multiplications"""
    out = set(MUL)
    for f in p.j["fns"]:
        if f["local"] and f.get("bl") and f["k"] == "item" and "::ellipticcurve::" in f["d"] \
                and f["lt"][0] not in f["lt"][1:1 + f["argc"]] and c23.reaches(p, f, lambda g: g["local"] and last(g["d"]) in ("multiply", "x25519")):
            out.add(tls_model.last(f["d"]))
    return out


def leaves(t, keys, scalars, memo, mul=MUL):
    """why a term reveals a secret, or None"""
    r = memo.get(t, 0)
    if r != 0:
        return r
    memo[t] = None
    r = None
    if t in keys:
        r = "a private key"
    elif t.op == "sym" and t in scalars:
        r = "an ephemeral private key"
    elif t.op == "app" and type(t.a[0]) is str:
        n = t.a[0].split("::")[-1]
        if t.a[0] == "expand":
            x = MO.hk(t)
            r = "an output of the key schedule (%s)" % (x.label.decode("latin1") if x else "expand")
        elif t.a[0] == "hmac":
            r = "an output of the key schedule (extract)"
        elif n in mul or t.a[0] in mul:
            own = any(s in scalars for s in syms(t))
            peer = any(type(s.a[0]) is tuple and s.a[0][0] in ("rx", "pt") for s in syms(t))
            if own and peer:
                r = "the shared secret"
            memo[t] = r
            return r
        elif t.a[0] in STOP or n in STOP:
            return None
    if r is None:
        for x in t.a:
            if type(x) is Term:
                r = leaves(x, keys, scalars, memo, mul)
                if r:
                    break
    memo[t] = r
    return r


def template(b):
    """the pieces of a compiled format string: literal bytes or an argument"""
    out, i = [], 0
    while i < len(b):
        c = b[i]
        if c == 0:
            return out if i == len(b) - 1 else None
        if c == 0xc0:
            out.append(None)
            i += 1
        elif c < 0x80:
            if i + 1 + c > len(b):
                return None
            out.append(b[i + 1:i + 1 + c])
            i += 1 + c
        else:
            return None
    return out


def flat(t):
    """the characters of a written value: a list of int (constant byte) or Term (an opaque piece); None if unknown"""
    while t.op == "vref":
        t = t.a[0]
    if t.op == "app" and type(t.a[0]) is str and "Arguments" in t.a[0]:
        n = t.a[0].split("::")[-1]
        if n == "from_str":
            return flat(t.a[1])
        p = t.a[1]
        while p.op == "vref":
            p = p.a[0]
        b = const_bytes(p)
        tp = template(bytes(b)) if b is not None else None
        if tp is None:
            return None
        args = []
        if len(t.a) > 2:
            a = t.a[2]
            while a.op == "vref":
                a = a.a[0]
            args = known_elems(a)
            if args is None:
                return None
        out, k = [], 0
        for p in tp:
            if p is not None:
                out += list(p)
                continue
            if k >= len(args):
                return None
            x = args[k]
            k += 1
            if x.op != "app" or x.a[0].split("::")[-1] != "new_display":
                return None
            f = flat(x.a[1])
            if f is None:
                return None
            out += f
        return out
    if t.op == "app" and t.a[0] == "to_hex":
        return [t]
    if t.op == "seq" or const_bytes(t) is not None:
        out = []
        for op, x in MO.segl(t):
            if op == "E":
                if x.op != "i":
                    return None
                out.append(x.a[0] & 255)
            else:
                f = flat(x) if x is not t else None
                if f is None:
                    return None
                out += f
        return out
    return None


def own(t):
    """a fresh draw of this side: nothing that was received"""
    return t.op == "sym" and type(t.a[0]) is tuple and str(t.a[0][0]).startswith("rng:")


class C11(MO.Track):
    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.kl = [j for j, fn, d, n in scen if fn == "keylog"]
        self.keys, self.scalars, self.out_terms = set(), set(), {}
        self.path = 0

    # ---- what is secret
    def on_sign(self, eng, st, fr, key, hash, src):
        if key.op not in ("i", "b") and (syms(key) or key.op == "fld"):
            self.keys.add(key)

    def on_called(self, eng, st, fr, f, vals, rv):
        n = last(f["d"])
        if n in MUL:
            for v in vals:
                v = eng.load_all(st, v)
                for s in syms(v):
                    if type(s.a[0]) is tuple and str(s.a[0][0]).startswith("rng:"):
                        self.scalars.add(s)
        elif not f["local"] and f["d"].lstrip("<&").startswith(SINKS):
            if "File as std::io::Write>::write" in f["d"] or f["d"] == "std::fs::write":
                self.on_file_write(eng, st, fr, f["d"], eng.deep(st, vals[0]), eng.deep(st, vals[1]))
            elif n not in ("write_fmt", "write", "write_all", "_print", "_eprint"):
                for v in vals[:4]:
                    self.sink(eng, st, fr, "the call of %s" % f["d"], eng.deep(st, v))

    # ---- where it could go
    def sink(self, eng, st, fr, what, t):
        k = (what, t, fr.f["d"])
        if k not in self.out_terms and len(self.out_terms) < 4000:
            w = eng.where(fr)
            self.out_terms[k] = w
            self.n("outputs examined")

    def on_print(self, eng, st, fr, args):
        for a in args:
            self.sink(eng, st, fr, "a print", eng.load_all(st, a))

    def on_tcp_write(self, eng, st, fr, data, partial):
        self.sink(eng, st, fr, "the socket", data)

    def on_file_write(self, eng, st, fr, to, recv, data):
        if self.path == 0:
            f, args, c, ty = tls_model.entry(eng, eng.p, self.side)
            self.path = mk("fld", mk("fld", c, 0, self.kl[0]), 1, 0) if self.kl else None
        if not (self.path is not None and any(x is self.path for x in MO.subterms(recv))):
            if any(x.op == "phi" or x.op == "sym" and str(x.a[0]).startswith("phi") for x in MO.subterms(recv)) and self.scen.get("keylog") != "None":
                self.n("file names undecided")
                return
            self.sink(eng, st, fr, "a file other than the configured key log", data)
            return
        if self.scen.get("keylog") == "None":
            self.sink(eng, st, fr, "the key log although none is configured", data)
            return
        c = flat(data)
        if c is None:
            self.n("key log writes undecided")
            return
        pend = st.m("line")
        cur = list(pend.a) if pend is not None and pend.op == "line" else []
        for x in c:
            x = I(x) if type(x) is int else x
            if x.op == "i" and x.a[0] == 10:
                self.line(eng, st, fr, cur)
                cur = []
            else:
                cur.append(x)
        st.mset("line", mk("line", *cur))

    def line(self, eng, st, fr, toks):
        self.n("key log lines")
        words, cur = [], []
        for t in toks + [I(32)]:
            if t.op == "i" and t.a[0] == 32:
                words.append(cur)
                cur = []
            else:
                cur.append(t)
        lab = "".join(chr(t.a[0]) for t in words[0]) if words and all(t.op == "i" for t in words[0]) else None
        if not toks:
            return
        if len(words) != 3 or lab is None or any(len(w) != 1 or w[0].op != "app" or w[0].a[0] != "to_hex" for w in words[1:]):
            self.v(eng, fr, "format", "a key log line is not LABEL <client random in hex> <secret in hex>: %s" % " ".join(show(t, 2) if t.op != "i" else chr(t.a[0]) for t in toks)[:200])
            return
        who = LABEL.get(lab)
        if who is None:
            self.v(eng, fr, "label", "%r is not a label of the key log format" % lab)
            return
        rnd, sec = words[1][0].a[1], words[2][0].a[1]
        ch = st.m("CH")
        want = subseq(ch, I(6), I(38)) if ch is not None else None
        if rnd is want:
            self.n("client randoms matched")
        elif want is None or self.undec(rnd, want) and not (self.side == "server" and own(rnd)):
            self.n("client randoms undecided")
        else:
            self.v(eng, fr, "random", "the key log line %s does not carry this connection's client random but %s" % (lab, show(rnd, 3)[:160]))
        got = MO.classify_secret(sec)
        if got is None:
            if MO.has_phi(sec):
                self.n("key log secrets undecided")
            else:
                self.v(eng, fr, "secret:%s" % lab, "the key log line %s holds something that is not a traffic secret: %s" % (lab, show(sec, 4)[:160]))
            return
        if got != who:
            self.v(eng, fr, "pairing:%s" % lab, "the key log line %s holds the %s's %s traffic secret" % (lab, got[0], {"hs": "handshake", "ap": "application"}[got[1]]))
            return
        tr = st.m("tr@SH" if who[1] == "hs" else "tr@SF")
        x = MO.hk(sec)
        if tr is not None and MO.is_app(x.ctx, "digest") and x.ctx.a[2] is not tr and not MO.has_phi(x.ctx.a[2]) and not MO.has_phi(tr):
            self.v(eng, fr, "transcript:%s" % lab, "the key log line %s holds a secret of another transcript" % lab)
            return
        self.n("key log lines matched")

    @staticmethod
    def undec(a, b):
        """values joined over different paths cannot be told apart by their terms; slices of the same one can"""
        if not MO.has_phi(a) and not MO.has_phi(b):
            return False
        return not (a.op == "sub" and b.op == "sub" and a.a[0] is b.a[0])

    def run_on(self, eng, results):
        for st, x in MO.connections(eng, results, 2):
            for op in ("tls_write", "tls_read"):
                MO.call_stream(eng, st, x, op)
                self.n("connection operations examined")

    def finish(self, eng, results):
        memo = {}
        mul = multipliers(eng.p)
        self.n("private keys identified", len(self.keys))
        self.n("ephemeral scalars identified", len(self.scalars))
        for (what, t, fn), w in self.out_terms.items():
            r = leaves(t, self.keys, self.scalars, memo, mul)
            if r:
                key = "leak:%s:%s" % (what, r)
                if "%s/%s" % (self.side, key) not in self.viol:
                    self.viol["%s/%s" % (self.side, key)] = "%s reaches %s [%s:%s in %s; call chain %s]" % (r, what, w["file"], w["line"], w["fn"], w["chain"])
            else:
                self.n("outputs without secrets")


def run(ctx):
    R.handshakes(ctx, C11, logs=True, few=3)
    for w, k in (("key log lines matched", 8), ("client randoms matched", 8), ("outputs without secrets", 100), ("ephemeral scalars identified", 2),
                 ("private keys identified", 1)):
        ctx.floor(w, k)
