"""A byte-lane domain for machine integers: a value built from bytes by shifts, or, xor and casts is a vector of byte
terms (least significant first), so that conversions between byte strings and integers are the identity on bytes.
Xor of bytes is kept in a canonical form (a constant and a set of terms)."""
import std_model
from terms import *
from engine import *
from tls_model import TlsEngine


def bx(xs):
    c = 0
    s = {}
    todo = list(xs)
    while todo:
        x = todo.pop()
        if x.op == "i":
            c ^= x.a[0] & 255
        elif x.op == "bx":
            c ^= x.a[0]
            todo += x.a[1:]
        elif x in s:
            del s[x]
        else:
            s[x] = 1
    if not s:
        return I(c)
    if c == 0 and len(s) == 1:
        return next(iter(s))
    return mk("bx", c, *sorted(s, key=lambda t: t.id))


def lanes_of(t, w):
    """w bytes of the integer t, least significant first"""
    if t.op == "i":
        n = t.a[0] & ((1 << (8 * w)) - 1)
        return [I((n >> (8 * i)) & 255) for i in range(w)]
    if t.op == "lanes":
        l = list(t.a)[:w]
        return l + [I(0)] * (w - len(l))
    return [mk("byteof", t, i) for i in range(w)]


def mk_lanes(bs, w):
    bs = list(bs)[:w]
    if all(b.op == "i" for b in bs):
        return I(sum(b.a[0] << (8 * i) for i, b in enumerate(bs)))
    b0 = bs[0]
    if b0.op == "byteof" and b0.a[1] == 0 and len(bs) == w and all(b.op == "byteof" and b.a[0] is b0.a[0] and b.a[1] == i for i, b in enumerate(bs)):
        return b0.a[0]
    while len(bs) > 1 and bs[-1].op == "i" and bs[-1].a[0] == 0:
        bs.pop()
    return mk("lanes", *bs)


def xor_int(a, b, w):
    return mk_lanes([bx([x, y]) for x, y in zip(lanes_of(a, w), lanes_of(b, w))], w)


def from_be(bs, w):
    """the integer whose big-endian bytes are bs, left aligned in w bytes"""
    return mk_lanes(list(reversed(list(bs) + [I(0)] * (w - len(bs)))), w)


class LaneMixin:
    def w(self, ty):
        bits, sg = self.p.int_info(ty) if ty is not None else (64, False)
        return bits // 8, sg

    def cast(self, st, fr, kind, v, fty, tty, o):
        if kind == "IntToInt" and self.p.T[fty]["k"] != "adt" and v.op not in ("i", "b", "discr", "lin"):
            fb, fs = self.p.int_info(fty)
            tb, ts = self.p.int_info(tty)
            if not fs and not ts and fb % 8 == 0 and tb % 8 == 0 and fb >= 8:
                if fb == 8:
                    return v if tb == 8 else mk_lanes([v], tb // 8)
                if v.op == "lanes" or tb == 8 or tb < fb:
                    l = lanes_of(v, fb // 8)
                    return l[0] if tb == 8 else mk_lanes((l + [I(0)] * 16)[:tb // 8], tb // 8)
        if kind == "IntToFloat" and v.op == "i":
            return mk("flt", float(v.a[0]).hex())
        if kind == "FloatToInt" and v.op == "flt":
            return I(int(float.fromhex(v.a[0])))
        return super().cast(st, fr, kind, v, fty, tty, o)

    def binop(self, st, op, a, b, ty):
        if a.op == "flt" and b.op == "flt" and op == "Div":
            return mk("flt", (float.fromhex(a.a[0]) / float.fromhex(b.a[0])).hex())
        w, sg = self.w(ty)
        if not sg and a.op not in ("b",) and b.op not in ("b",) and not (a.op == "i" and b.op == "i"):
            r = self.lane_op(op, a, b, w)
            if r is not None:
                return r
        return super().binop(st, op, a, b, ty)

    def lane_op(self, op, a, b, w):
        if w == 1:
            if op == "BitXor":
                return bx([a, b])
            return None
        if op == "BitXor":
            return mk_lanes([bx([x, y]) for x, y in zip(lanes_of(a, w), lanes_of(b, w))], w)
        if op in ("BitOr", "Add", "AddUnchecked") and (a.op in ("lanes", "i") and b.op in ("lanes", "i")):
            out = []
            for x, y in zip(lanes_of(a, w), lanes_of(b, w)):
                if x.op == "i" and x.a[0] == 0:
                    out.append(y)
                elif y.op == "i" and y.a[0] == 0:
                    out.append(x)
                elif op == "BitOr" and x.op == "i" and y.op == "i":
                    out.append(I(x.a[0] | y.a[0]))
                else:
                    return None
            return mk_lanes(out, w)
        if op == "BitOr":
            for x, y in ((a, b), (b, a)):
                if y.op == "i" and y.a[0] == 0:
                    return x
            return None
        if op == "BitAnd" and (a.op == "i" or b.op == "i"):
            out = []
            for x, y in zip(lanes_of(a, w), lanes_of(b, w)):
                if y.op != "i":
                    x, y = y, x
                if y.a[0] == 255:
                    out.append(x)
                elif y.a[0] == 0:
                    out.append(I(0))
                elif x.op == "i":
                    out.append(I(x.a[0] & y.a[0]))
                else:
                    out.append(mk("bin", "BitAnd", x, y))
            return mk_lanes(out, w)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked") and b.op == "i" and b.a[0] % 8 == 0 and 0 <= b.a[0] < 8 * w:
            l = lanes_of(a, w)
            k = b.a[0] // 8
            return mk_lanes([I(0)] * k + l[:w - k] if op.startswith("Shl") else l[k:] + [I(0)] * k, w)
        return None

    def arith(self, op, a, b, ty):
        w, sg = self.w(ty)
        if op in ("Add",) and (a.op == "lanes" or b.op == "lanes"):
            r = self.lane_op("Add", a, b, w)
            if r is not None:
                return r
        return super().arith(op, a, b, ty)


class LaneTls(LaneMixin, TlsEngine):
    """the TLS engine with the byte-lane domain"""


class NonceTls(LaneTls):
    """bounded loops keep their rounds apart, however many states pass through them"""
    LOOP_MAX = 20000
    JOIN_MAX = 48


class LaneEngine(LaneMixin, Engine):
    LOOP_MAX = 5000
    JOIN_MAX = 400
    PURE = 10 ** 9

    def __init__(self, prog, models=(), **kw):
        super().__init__(prog, [], intrinsics=std_model.M, **kw)
        self.models = dict(models)
        self._hc = {}
        self.max_blocks = 250000

    def handler(self, f):
        h = self._hc.get(f["id"], 0)
        if h == 0:
            h = None
            if f["local"]:
                for suf, m in self.models.items():
                    if f["d"].endswith(suf) and f["d"][:-len(suf)].endswith(("", ":", " ")):
                        h = m
            else:
                h = self.intr.get(stdkey(f["d"]))
                if h is None and not std_inlinable(f["d"]):
                    h = std_opaque
            self._hc[f["id"]] = h
        return h

    def eventful(self, fid):
        return True     # no step budget: every loop here has a concrete bound

    def key(self, st, level):
        self._k = getattr(self, "_k", 0) + 1
        return self._k     # paths are never merged: every loop here has a concrete bound


def unlen(t, n):
    """t with a known length"""
    return set_len(t, I(n))


def explicit(t):
    """a byte string of known length as explicit elements"""
    if t.op in ("seq", "sub"):
        k = known_elems(t)
        if k is not None:
            return seq_of(k)
    return t


def opaque(name, n=None, sort=False, skip=(), norm=False):
    """a function treated as uninterpreted: its value is a term of the values (not the addresses) of its arguments"""
    def h(eng, fr, b, st, f, vals, rty, atys):
        a = [eng.load_all(st, v) for v in vals]
        a = [explicit(x) if norm else x for i, x in enumerate(a) if i not in skip]
        if sort:
            a = sorted(a, key=lambda t: t.id)
        r = mk("app", name, *a)
        if n is not None:
            nn = n(a) if callable(n) else n
            set_len(r, I(nn))
        return [(st, r)]
    return h


def elems(t, n):
    return [elem(t, I(i)) for i in range(n)]


def arr(name, n):
    return set_len(mk("sym", ("arg", name)), I(n))


def args_by_name(p, f, vals):
    """the arguments of f, found by parameter type and order"""
    return [vals[i] for i in range(f["argc"])]


def is_empty(e, st, *ts):
    """does this path know that one of the byte strings is empty? (analysed separately with an empty string)"""
    return any(t.op == "sym" and e.lookup(st, mk("eq", length(t), I(0))) in (1, T1) or st.facts.get(length(t)) == 0 for t in ts)


def undetermined(v):
    """does the value contain something the analysis could not follow (not merely a different construction)?"""
    seen = set()
    todo = [v]
    while todo:
        t = todo.pop()
        if type(t) is not Term or t in seen:
            continue
        seen.add(t)
        if t.op in ("stale", "uninit", "deref") or (t.op == "sym" and t.a[0][0] in ("phi", "havoc")):
            return True
        if t.op == "app" and type(t.a[0]) is str and t.a[0] not in KNOWN_APPS:
            return True
        todo += t.a
    return False



KNOWN_APPS = {"pt", "sha256", "sha384", "hmac", "aes", "aes_init", "gmult", "chacha", "polymac"}
