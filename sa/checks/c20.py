"""Abstract interpretation of both handshake roles with every byte string kept as a sequence of symbolic segments and
every length as a linear term over their lengths: each emitted record and handshake message is taken apart with the
grammar of RFC 8446, and each length prefix must be, in big-endian bytes at the field's width, the linear term that is
the length of what follows. The serialisers are also analysed one by one for enumerated lengths of their parts."""
from monitors import *
from lanes import *
from local import loc, call, unwrap
from run import parallel
import os
import run as R

TECHNIQUE = "abstract interpretation of MIR over byte-segment terms with linear length terms, matched against the message grammar"
RULE = ("every length prefix of every emitted record, handshake message, hello, extension, certificate, key share and signature, "
        "as the vector of its big-endian bytes, equals the symbolic length of the element behind it")
ASSUME = ["variable parts are within the protocol's limits"]


class LenTls(NonceTls):
    """follow the functions that serialise messages"""
    def is_event_fn(self, f):
        if super().is_event_fn(f):
            return True
        if f["local"] and f.get("bl") and "::net::" in f["d"]:
            r = self.p.tname(f["lt"][0])
            return r == "std::vec::Vec<u8>" or "dyn " in r
        return False


class Wrong(Exception):
    """a length field that is not the length of what follows: (where, message)"""


class Open(Exception):
    """not decided"""


def tidy(t):
    """strip casts that change nothing about a length"""
    while t.op in ("trunc", "zext") or (t.op == "lanes" and len(t.a) == 1):
        t = t.a[-1] if t.op != "lanes" else t.a[0]
    return t


class P:
    """a cursor over the segments of a content"""
    def __init__(self, c, look, where):
        self.s = []
        for k, t in segs_of(c):
            self.s += [(k, t)]
        self.look, self.where = look, where

    def sub(self, where, segs):
        p = P.__new__(P)
        p.s, p.look, p.where = segs, self.look, self.where + "/" + where
        return p

    def norm(self, t):
        if t.op == "i":
            return t
        v = self.look(t)
        return I(v) if type(v) is int else t

    def byte(self):
        while self.s:
            k, t = self.s[0]
            if k == "E":
                self.s = self.s[1:]
                return self.norm(t)
            n = self.norm(length(t))
            if n.op == "i" and n.a[0] == 0:
                self.s = self.s[1:]
                continue
            if n.op == "i" and n.a[0] > 0:
                e = elem(t, I(0))
                rest = list(segs_of(subseq(t, I(1), n)))
                self.s = rest + self.s[1:]
                return self.norm(e)
            raise Open("%s: behind bytes of unknown number (%s)" % (self.where, show(t)[:60]))
        raise Wrong(self.where, "%s: nothing left where a field is expected" % self.where)

    def skip(self, n):
        return [self.byte() for _ in range(n)]

    def total(self):
        n = I(0)
        for k, t in self.s:
            n = add(n, I(1) if k == "E" else self.norm(length(t)))
        return n

    def field(self, w, name):
        """the length encoded by the next w bytes"""
        bs = self.skip(w)
        self.name = "%s/%s" % (self.where, name)
        if all(b.op == "i" for b in bs):
            return I(int.from_bytes(bytes(b.a[0] & 255 for b in bs), "big"))
        lo = bs[-1]
        if lo.op == "i":
            raise Open("%s: a constant low byte below %s" % (self.name, show(bs[0])[:80]))
        x = tidy(lo.a[0]) if lo.op == "byteof" and lo.a[1] == 0 else tidy(lo)
        for k, b in enumerate(reversed(bs[:-1]), 1):
            ok = (b.op == "byteof" and b.a[1] == k and tidy(b.a[0]) is x) or \
                 (b.op == "trunc" and b.a[-1].op == "byteof" and b.a[-1].a[1] == k and tidy(b.a[-1].a[0]) is x)
            if ok:
                continue
            if b.op == "i" and b.a[0] == 0:
                if x.op in ("elem", "i"):
                    continue
                if k == 1 and "/certificate/" in self.name and "context" not in self.name:
                    raise Wrong(self.name, "%s: byte %d is constantly 0 though the length is not bounded by a byte (%s)" % (self.name, k, show(x)[:120]))
                if k == 2 and w == 3 and "certificate" not in self.name:
                    continue
                raise Open("%s: byte %d is constantly 0, the length is %s" % (self.name, k, show(x)[:120]))
            if b.op in ("byteof",) and tidy(b.a[0]) is not x or b.op == "byteof" and b.a[1] != k:
                raise Wrong(self.name, "%s: byte %d is %s, not byte %d of %s" % (self.name, k, show(b)[:100], k, show(x)[:100]))
            raise Open("%s: byte %d is %s" % (self.name, k, show(b)[:100]))
        x = self.norm(x)
        return mk("lanes", x) if x.op == "elem" else x

    def take(self, n):
        """the next n bytes"""
        acc = I(0)
        out = []
        segs = list(self.s)
        while True:
            d = sub(n, acc)
            d = self.norm(d)
            if d.op == "i" and d.a[0] == 0:
                self.s = segs
                return out
            if not segs:
                if d.op == "i":
                    raise Wrong(self.name, "%s: the length field is %s, %d byte(s) %s what follows" %
                                (self.name, show(n)[:120], abs(d.a[0]), "more than" if d.a[0] > 0 else "less than"))
                if has_phi(d):
                    raise Open("%s: %s against %s" % (self.name, show(n)[:100], show(acc)[:100]))
                raise Wrong(self.name, "%s: the length field is %s, what follows has %s bytes" % (self.name, show(n)[:120], show(acc)[:120]))
            k, t = segs[0]
            l = I(1) if k == "E" else self.norm(length(t))
            if d.op == "i" and l.op == "i" and k != "E" and l.a[0] > d.a[0] > 0:
                out += segs_of(subseq(t, I(0), d))
                self.s = list(segs_of(subseq(t, d, l))) + segs[1:]
                return out
            if d.op == "i" and d.a[0] < 0:
                raise Wrong(self.name, "%s: the length field is %s, which ends inside an element (%d bytes too short)" % (self.name, show(n)[:120], -d.a[0]))
            out.append(segs[0])
            segs = segs[1:]
            acc = add(acc, l)

    def vec(self, w, name, last=False):
        n = self.field(w, name)
        keep = self.name
        b = self.take(n)
        if last:
            self.end(keep)
        q = self.sub(name, b)
        return q

    def end(self, name=None):
        t = self.norm(self.total())
        if t.op == "i" and t.a[0] == 0:
            return
        name = name or self.where
        if t.op == "i" or not has_phi(t):
            raise Wrong(name, "%s: %s byte(s) follow the element that ends the message" % (name, show(t)[:100]))
        raise Open("%s: %s bytes left" % (name, show(t)[:100]))

    def empty(self):
        t = self.norm(self.total())
        if t.op == "i":
            return t.a[0] == 0
        if t.op == "len":
            return None
        return False


def exts(p, hello, count):
    """an extension list"""
    while True:
        e = p.empty()
        if e:
            return
        if e is None:
            raise Open("%s: extensions of unknown number" % p.where)
        t = p.skip(2)
        count("extensions")
        typ = t[0].a[0] * 256 + t[1].a[0] if t[0].op == t[1].op == "i" else None
        b = p.vec(2, "extension %s" % typ)
        if typ == 43:
            if hello == "client_hello":
                v = b.vec(1, "versions", True)
            else:
                b.skip(2)
            continue
        if typ == 51:
            if hello == "client_hello":
                b = b.vec(2, "client_shares", True)
            while not b.empty():
                b.skip(2)
                b.vec(2, "key_exchange", hello != "client_hello")
        elif typ == 13:
            b.vec(2, "signature_schemes", True)
        elif typ == 10:
            b.vec(2, "groups", True)
        elif typ == 0 and not b.empty():
            l = b.vec(2, "server_name_list", True)
            l.skip(1)
            l.vec(2, "host_name", True)


NAMES = {1: "client_hello", 2: "server_hello", 4: "new_session_ticket", 8: "encrypted_extensions", 11: "certificate", 13: "certificate_request",
         15: "certificate_verify", 20: "finished"}


def handshake(p, count):
    """one or more handshake messages filling the content"""
    while True:
        t = p.byte()
        if t.op != "i" or t.a[0] not in NAMES:
            raise Open("%s: handshake type %s" % (p.where, show(t)[:60]))
        name = NAMES[t.a[0]]
        b = p.vec(3, name)
        count("handshake messages")
        try:
            body(b, name, count)
        except Wrong:
            raise
        if p.empty():
            return
        if p.empty() is None:
            raise Open("%s: bytes of unknown number behind a message" % p.where)


def body(b, name, count, hello=None):
    hello = hello or name
    if name == "client_hello":
        b.skip(2)
        fixed(b, 32)
        b.vec(1, "session_id")
        b.vec(2, "cipher_suites")
        b.vec(1, "compression_methods")
        exts(b.vec(2, "extensions", True), hello, count)
    elif name == "server_hello":
        b.skip(2)
        fixed(b, 32)
        b.vec(1, "session_id")
        b.skip(3)
        exts(b.vec(2, "extensions", True), hello, count)
    elif name == "encrypted_extensions":
        exts(b.vec(2, "extensions", True), hello, count)
    elif name == "certificate_request":
        b.vec(1, "context")
        exts(b.vec(2, "extensions", True), hello, count)
    elif name == "certificate":
        b.vec(1, "context")
        l = b.vec(3, "certificate_list", True)
        while not l.empty():
            l.vec(3, "cert_data")
            exts(l.vec(2, "extensions"), name, count)
            count("certificates")
    elif name == "certificate_verify":
        b.skip(2)
        b.vec(2, "signature", True)


def fixed(p, n):
    p.name = p.where + "/random"
    p.take(I(n))


def record(data, look, count, prot=None):
    """the records of one write"""
    p = P(data, look, "record")
    while not p.empty():
        if p.empty() is None:
            raise Open("record: bytes of unknown number")
        t = p.byte()
        p.skip(2)
        b = p.vec(2, "fragment of type %s" % show(t))
        count("records")
        if t.op == "i" and t.a[0] == 22:
            handshake(b, count)
        elif t.op == "i" and t.a[0] == 23:
            # TLSCiphertext: nothing inside to take apart
            pass


class C20(Mon):
    @staticmethod
    def engine():
        return LenTls

    def decide(self, eng, st, fr, data, how):
        seen = self.__dict__.setdefault("seen", {})
        open_ = self.__dict__.setdefault("open", set())

        def look(t):
            for x in (t, mk("lanes", t), t.a[0] if t.op == "lanes" and len(t.a) == 1 else t):
                v = eng.lookup(st, x)
                if v is not None:
                    return int(v)
                if eng.lookup(st, mk("eq", x, I(0))) in (1, True) or eng.lookup(st, mk("lt", I(0), x)) in (0, False):
                    return 0
            return None
        if data in seen and seen[data]:
            return
        cnt = {}

        def count(k):
            cnt[k] = cnt.get(k, 0) + 1
        try:
            how(data, look, count)
        except Wrong as x:
            if "context" in x.args[1] and os.environ.get("SA_DEBUG"):
                print("FACTS", [(show(k)[:150], v) for k, v in st.facts.items() if "+8" in show(k)])
            self.v(eng, fr, "len/" + x.args[0].split("/")[-1].strip(), x.args[1])
            return
        except Open as x:
            open_.add(str(x))
            self.n("emissions with a part not decided")
            return
        if data not in seen:
            for k, c in cnt.items():
                self.n(k + " taken apart", c)
            self.sample("%s: %s" % (", ".join("%d %s" % (c, k) for k, c in cnt.items()), show(data)[:160]))
        seen[data] = 1

    def on_tcp_write(self, eng, st, fr, data, partial):
        self.decide(eng, st, fr, data, record)

    def on_encrypt(self, eng, st, fr, plain, **ev):
        segs = list(segs_of(plain))
        if not segs or segs[-1][0] != "E" or segs[-1][1].op != "i" or segs[-1][1].a[0] != 22:
            return
        self.decide(eng, st, fr, subseq(plain, I(0), sub(length(plain), I(1))), lambda d, look, count: handshake(P(d, look, "record"), count))

    def finish(self, eng, results):
        for x in sorted(self.__dict__.get("open", ())):
            self.out.append((self.side, x))


def run(ctx):
    units(ctx)
    out = R.handshakes(ctx, C20, few=2)
    if os.environ.get("SA_DEBUG"):
        for x in sorted(set(map(str, out)))[:40]:
            print("OPEN", x[:300])


# ---------------------------------------------------------------------- the serialisers one by one
class Gen:
    """a value of a type with vectors of c elements, byte strings of n bytes, options present or not"""
    def __init__(self, p, c, n, some, flag):
        self.p, self.c, self.n, self.some, self.flag = p, c, n, some, flag
        self.k = 0
        self.used = 0

    def bytes(self, n=None):
        self.k += 1
        if n is None:
            self.used |= 4
        n = self.n if n is None else n
        return arr("bytes%d.%d" % (self.k, n), n) if n else EMPTY

    def short(self):
        self.used |= 4
        return min(self.n, 32)

    def val(self, ty, name="", d=0):
        p = self.p
        t = p.T[ty]
        tn = p.tname(ty)
        if d > 12:
            return mk("sym", ("arg", "deep"))
        if t["k"] == "ref":
            e = t.get("to", t.get("e"))
            return mk("vref", self.val(e[0] if type(e) is list else e, name, d + 1))
        if tn in ("std::vec::Vec<u8>", "[u8]", "str", "std::string::String"):
            return self.bytes(self.short() if "session" in name else 32 if "random" in name else None)
        if tn.startswith("std::vec::Vec<") or t["k"] == "slice":
            a = t.get("args") or [t.get("e")]
            a = a[0] if type(a[0]) is not list else a[0][0]
            et = p.T[a]
            if et["k"] == "adt" and et["a"] == "enum" and any(v["f"] for v in et["v"]):
                return seq_of([mk("agg", a, k, *[self.val(ft, "", d + 1) for _, ft in v["f"]]) for k, v in enumerate(et["v"])][:self.c * 9 if self.c else 0])
            n = self.c if et["k"] == "adt" and et["a"] == "enum" else min(self.c, 8)
            return seq_of([self.val(a, "", d + 1) for _ in range(n)])
        if tn == "bool":
            self.used |= 1
            return mk("b", self.flag)
        if t["k"] == "array" or tn.startswith("["):
            return self.bytes(32)
        if t["k"] == "adt" and t["a"] == "enum":
            if t["d"].endswith("::Option"):
                self.used |= 2
                if not self.some:
                    return mk("agg", ty, 0)
                return mk("agg", ty, 1, self.val(t["v"][1]["f"][0][1], name, d + 1))
            if any(v["f"] for v in t["v"]):
                v = t["v"][-1]
                return mk("agg", ty, len(t["v"]) - 1, *[self.val(ft, name, d + 1) for _, ft in v["f"]])
            self.k += 1
            return mk("agg", ty, self.k % len(t["v"]))
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct":
            fl = t["v"][0]["f"]
            groups = [i for i, (fn, ft) in enumerate(fl) if p.T[ft].get("d", "").endswith("::NamedGroup")]
            if groups and len(fl) == 2:
                # a share has the size of its group
                g = fl[groups[0]][1]
                x = [k for k, v in enumerate(p.T[g]["v"]) if v["n"].lower() == "x25519"]
                return mk("agg", ty, 0, *[mk("agg", g, x[0] if x else 0) if i in groups else self.bytes(32) for i in range(2)])
            return mk("agg", ty, 0, *[self.val(ft, fn, d + 1) for fn, ft in fl])
        if t["k"] == "tuple":
            return mk("agg", ty, 0, *[self.val(x, name, d + 1) for x in (t.get("args") or t.get("e") or [])])
        self.k += 1
        return mk("sym", ("arg", "x%d" % self.k))


def extlist(hello):
    def g(p, count):
        exts(p, hello, count)
    return g


def vecext(hello):
    def g(p, count):
        exts(p.vec(2, "extensions", True), hello, count)
    return g


def bodyhello(name, hello):
    def g(p, count):
        body(p, name, count, hello)
    return g


def frame(skip, w, name):
    def g(p, count):
        p.skip(skip)
        p.vec(w, name, True)
    return g


def bodyof(name):
    def g(p, count):
        body(p, name, count)
    return g


NS = [1, 2, 31, 32, 64, 65, 127, 128, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4096, 16000]
BIG = [65530, 65531, 65532, 65533, 65535, 65536, 65537, 70000]


def roots(p):
    """(function, grammar, byte lengths, vector lengths)"""
    for f in p.j["fns"]:
        if not (f.get("bl") and f["local"] and f["k"] == "item" and "::net::" in f["d"]):
            continue
        d = f["d"]
        n = d.split("::")[-1]
        t = p.T[f["lt"][1]] if f["argc"] else None
        self_ = ""
        if t is not None:
            e = t.get("to", t.get("e")) if t["k"] == "ref" else f["lt"][1]
            e = e[0] if type(e) is list else e
            self_ = p.tname(e)
        ret = p.tname(f["lt"][0])
        if not ("Vec<u8>" in ret):
            continue
        im = p.impl_of.get(f["id"])
        if im and im[0].split("::")[-1] == "Extension" and im[1] in ("server_as_bytes", "client_as_bytes") and f["argc"] == 1:
            yield f, extlist("client_hello" if im[1][0] == "c" else "server_hello"), NS, (1, 2, 3, 9, 120)
        elif "Extensions<" in self_ and f["argc"] == 1:
            yield f, [vecext("client_hello"), vecext("server_hello")], NS[:-2], (0, 1, 3)
        elif self_.split("<")[0].endswith("::ServerHello") and f["argc"] == 1:
            yield f, [bodyhello("server_hello", x) for x in ("server_hello", "client_hello")], NS[:-2], (0, 1)
        elif self_.split("<")[0].endswith("::ClientHello") and f["argc"] == 1:
            yield f, [bodyhello("client_hello", x) for x in ("client_hello", "server_hello")], NS[:-2], (0, 1, 3, 120, 130)
        elif self_.split("<")[0].endswith("::Record") and f["argc"] == 1:
            yield f, frame(3, 2, "fragment"), [0] + NS + [16383, 16384], (1,)
        elif self_.split("<")[0].endswith("::KeyShareEntry") and f["argc"] == 1:
            yield f, frame(2, 2, "key_exchange"), NS, (1,)
        elif "::Handshake::" in d and n == "to_bytes" and f["argc"] == 2:
            yield f, frame(1, 3, "body"), [0] + NS + BIG, (1,)
        elif self_.split("<")[0].endswith("::Certificate") and f["argc"] == 2 and n == "get_certificate_for_handshake":
            yield f, bodyof("certificate"), NS + BIG, (1,)
        elif self_.split("<")[0].endswith("::Certificate") and f["argc"] == 2 and n == "get_certificate_request":
            yield f, bodyof("certificate_request"), [0] + NS[:15], (1,)


def unit(ctx, fid, i):
    p = ctx.prog
    f, g, ns, cs = list(roots(p))[i]
    open_, good = set(), set()
    for c in cs:
        used = 7
        for n in ns:
            if not used & 4:
                continue
            used = used & 4 | 3
            for some in (0, 1):
                for flag in (0, 1):
                    if (flag and not used & 1) or (some and not used & 2):
                        continue
                    ge = Gen(p, c, n, some, flag)
                    e = LaneEngine(p)
                    st = St()
                    # the opaque bytes handed in beside self are short where the protocol says so
                    vals = []
                    for k in range(f["argc"]):
                        ty = f["lt"][1 + k]
                        if k and "certificate" in f["d"]:
                            ge.used |= 4
                            v = ge.bytes(min(n, 255))
                            v = mk("vref", v) if p.T[ty]["k"] == "ref" else context(v)
                        else:
                            v = ge.val(ty)
                        vals.append(v)
                    used = ge.used | (used & 4 if f['argc'] > 1 else 0)
                    rs = call(e, f, vals, st)
                    for st2, v in rs:
                        v = e.load_all(st2, v)
                        k, v = unwrap(p, v) if v.op == "agg" else ("ok", v)
                        if k == "no":
                            continue
                        cnt = {}

                        def count(w):
                            cnt[w] = cnt.get(w, 0) + 1

                        def look(t):
                            r = st2.facts.get(t)
                            return r if type(r) is int else None
                        ctx.n("serialiser calls analysed")
                        res = [attempt(x, v, look, "::".join(f["d"].split("::")[-2:]), count) for x in (g if type(g) is list else [g])]
                        if None not in res:
                            x = next((x for x in res if type(x) is Open), None)
                            if x and (c, some, flag) in good and n > 255:
                                # the same grammar fitted shorter values: here a length field falls into the opaque bytes
                                ctx.v("unit/layout", "%s with byte strings of %d and vectors of %d elements: the lengths written do not lead to the next "
                                      "field, as they do for shorter values: %s" % (loc(p, f), n, c, x))
                                return
                            if x:
                                open_.add(str(x))
                                continue
                            x = res[0]
                            if n + 8 * c > 65000 and "extension" in x.args[1]:
                                continue
                            ctx.v("unit/" + x.args[0].split("/")[-1], "%s with byte strings of %d and vectors of %d elements: %s" % (loc(p, f), n, c, x.args[1]))
                            return
                        else:
                            good.add((c, some, flag))
                        ctx.n("serialised values taken apart")
    for x in sorted(open_)[:3]:
        ctx.incomplete.append("%s: %s" % (loc(p, f), x))
    ctx.sample("%s: lengths right for byte strings of %d..%d bytes and vectors of %s elements" % (loc(p, f), min(ns), max(ns), cs))


def attempt(g, v, look, name, count):
    try:
        q = P(v, look, name)
        g(q, count)
        q.end()
    except (Wrong, Open) as x:
        return x


def context(v):
    """the request context with its length byte"""
    n = length(v).a[0]
    return concat(seq_of([I(n)]), v)


def units(ctx):
    p = ctx.prog
    jobs = [(f["id"], i) for i, (f, *_) in enumerate(roots(p))]
    ctx.n("serialisers analysed", len(jobs))
    parallel(ctx, unit, jobs)
