"""Hash-consed symbolic value terms (the abstract value domain).

A term denotes a runtime value.  Terms are interned, so identity is structural
equality.  `mask` is a bit set of the unknowns (`sym`, `stale`) a term mentions.
Linear integer terms are kept in a canonical form so that offsets and lengths
computed in different ways compare equal.
"""

_tab = {}
_symbits = {}
_symbynum = {}
STALE = 1  # bit 0: mentions a symbol of an earlier iteration (never trusted to be equal)


class Term:
    __slots__ = ("op", "a", "mask", "id", "sh0", "sh1")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.a = a
    m = 0
    if op == "sym":
        b = _symbits.get(a[0])
        if b is None:
            b = 1 << (len(_symbits) + 1)
            _symbits[a[0]] = b
            _symbynum[b] = t
        m = b
    elif op == "stale":
        m = STALE
    else:
        for x in a:
            if type(x) is Term:
                m |= x.mask
            elif type(x) is tuple:
                for y in x:
                    if type(y) is Term:
                        m |= y.mask
    t.mask = m
    t.id = len(_tab)
    t.sh0 = t.sh1 = None
    _tab[key] = t
    return t


def symbit(name):
    return mk("sym", name).mask


def I(n):
    return mk("i", n)


T1 = mk("b", 1)
T0 = mk("b", 0)
UNINIT = mk("uninit")


def B(x):
    return T1 if x else T0


def is_const(t):
    return t.op in ("i", "b")


def cval(t):
    return t.a[0]


# ---------------------------------------------------------------- linear integers
def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op in ("i", "b"):
        return t.a[0], {}
    if t.op == "lin":
        d = {}
        a = t.a
        for i in range(1, len(a), 2):
            d[a[i]] = a[i + 1]
        return a[0], d
    return 0, {t: 1}


def lin_make(k, d):
    items = [(t, c) for t, c in d.items() if c]
    if not items:
        return I(k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    flat = []
    for t, c in items:
        flat.append(t)
        flat.append(c)
    return mk("lin", k, *flat)


def add(a, b, s=1):
    k1, d1 = lin_parts(a)
    k2, d2 = lin_parts(b)
    if not d1 and not d2:
        return I(k1 + s * k2)
    d = dict(d1)
    for t, c in d2.items():
        d[t] = d.get(t, 0) + s * c
    return lin_make(k1 + s * k2, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, n):
    k, d = lin_parts(a)
    return lin_make(k * n, {t: c * n for t, c in d.items()})


# ---------------------------------------------------------------- sequences
LEN = {}  # opaque content term -> length term (known from its type or its producer)


def seq(segs):
    """segs: list of ('E', t) / ('A', t) pairs"""
    out = []
    for k, t in segs:
        if k == "A":
            if t.op == "seq":
                for s in t.a:
                    out.append((s.op, s.a[0]))
                continue
            if t.op == "sub" and out and out[-1][0] == "A" and out[-1][1].op == "sub" \
                    and out[-1][1].a[0] is t.a[0] and out[-1][1].a[2] is t.a[1]:
                out[-1] = ("A", subseq(t.a[0], out[-1][1].a[1], t.a[2]))
                if out[-1][1].op == "seq":
                    x = out.pop()[1]
                    for s in x.a:
                        out.append((s.op, s.a[0]))
                continue
            l = LEN.get(t)
            if l is not None and l.op == "i" and l.a[0] == 0:
                continue
        out.append((k, t))
    if len(out) == 1 and out[0][0] == "A":
        return out[0][1]
    # byte-by-byte copies of a whole known-length content
    if out and all(k == "E" for k, _ in out) and out[0][1].op == "elem":
        c = out[0][1].a[0]
        l = length(c)
        if l.op == "i" and l.a[0] == len(out) and all(
                t.op == "elem" and t.a[0] is c and t.a[1].op == "i" and t.a[1].a[0] == i
                for i, (_, t) in enumerate(out)):
            return c
    return mk("seq", *[mk(k, t) for k, t in out])


EMPTY = mk("seq")


def seq_of(terms):
    return seq([("E", t) for t in terms])


def bytes_term(bs):
    return mk("seq", *[mk("E", I(b)) for b in bs])


def segs_of(c):
    if c.op == "seq":
        return [(s.op, s.a[0]) for s in c.a]
    return [("A", c)]


def concat(*cs):
    r = []
    for c in cs:
        r += segs_of(c)
    return seq(r)


def length(c):
    if c.op == "seq":
        n = 0
        r = I(0)
        for s in c.a:
            if s.op == "E":
                n += 1
            else:
                r = add(r, length(s.a[0]))
        return add(r, I(n))
    if c.op == "sub":
        return sub(c.a[2], c.a[1])
    if c.op == "upd":
        return length(c.a[0])
    l = LEN.get(c)
    if l is not None:
        return l
    return mk("len", c)


def set_len(c, l):
    if c.op not in ("seq", "sub", "upd") and c not in LEN:
        LEN[c] = l
    return c


def known_elems(c):
    """list of element terms if the content has a known finite structure"""
    if c.op == "seq":
        r = []
        for s in c.a:
            if s.op == "E":
                r.append(s.a[0])
            else:
                k = known_elems(s.a[0])
                if k is None:
                    return None
                r += k
        return r
    l = length(c)
    if l.op == "i" and 0 <= l.a[0] <= 512:
        return [elem(c, I(i)) for i in range(l.a[0])]
    return None


def const_bytes(c):
    k = known_elems(c)
    if k is None or not all(t.op == "i" for t in k):
        return None
    return bytes(t.a[0] & 255 for t in k)


def elem(c, idx):
    if c.op == "sub":
        return elem(c.a[0], add(c.a[1], idx))
    if c.op == "seq" and True:
        pos = I(0)
        for s in c.a:
            d = sub(idx, pos)
            if s.op == "E":
                if d.op == "i" and d.a[0] == 0:
                    return s.a[0]
                pos = add(pos, I(1))
            else:
                l = length(s.a[0])
                if d.op == "i" and l.op == "i" and 0 <= d.a[0] < l.a[0]:
                    return elem(s.a[0], d)
                if d.op == "i" and l.op != "i" and len(c.a) == 1:
                    return elem(s.a[0], d)
                pos = add(pos, l)
    if c.op == "upd" and c.a[1].op == "i" and idx.op == "i":
        if c.a[1] is idx:
            return c.a[2]
        return elem(c.a[0], idx)
    if c.op == "rep":
        return c.a[0]
    return mk("elem", c, idx)


def update(c, idx, v):
    if idx.op == "i":
        if c.op == "seq":
            pos = 0
            r = segs_of(c)
            for i, (k, t) in enumerate(r):
                if k == "E":
                    if pos == idx.a[0]:
                        r[i] = ("E", v)
                        return seq(r)
                    pos += 1
                else:
                    l = length(t)
                    if l.op != "i":
                        break
                    if pos <= idx.a[0] < pos + l.a[0]:
                        o = idx.a[0] - pos
                        if l.a[0] <= 512:
                            es = [("E", elem(t, I(j))) for j in range(l.a[0])]
                            es[o] = ("E", v)
                            return seq(r[:i] + es + r[i + 1:])
                        break
                    pos += l.a[0]
        else:
            l = length(c)
            if l.op == "i" and l.a[0] <= 512 and 0 <= idx.a[0] < l.a[0]:
                es = [elem(c, I(j)) for j in range(l.a[0])]
                es[idx.a[0]] = v
                return seq_of(es)
    return mk("upd", c, idx, v)


def subseq(c, lo, hi):
    if lo is hi:
        return EMPTY
    if c.op == "sub":
        return subseq(c.a[0], add(c.a[1], lo), add(c.a[1], hi))
    L = length(c)
    if lo.op == "i" and lo.a[0] == 0 and hi is L:
        return c
    if c.op == "seq":
        # split at segment boundaries when both ends can be located
        segs = segs_of(c)
        pos = I(0)
        out = []
        state = 0
        ok = True
        if lo is pos:
            state = 1
        if state == 1 and hi is pos:
            return EMPTY
        for si, (k, t) in enumerate(segs):
            l = I(1) if k == "E" else length(t)
            end = add(pos, l)
            if state == 0:
                d = sub(lo, pos)
                if lo is end:
                    state = 1
                    pos = end
                    if hi is pos:
                        return EMPTY
                    continue
                if k == "A" and d.op == "i" and d.a[0] > 0 and (
                        (l.op == "i" and d.a[0] < l.a[0]) or (l.op != "i" and si == len(segs) - 1)):
                    # starts inside this opaque segment
                    e = sub(hi, pos)
                    if hi is not end and (si == len(segs) - 1 or (e.op == "i" and l.op == "i" and e.a[0] <= l.a[0])):
                        return subseq(t, d, e)
                    out += segs_of(subseq(t, d, l))
                    state = 1
                    pos = end
                    continue
                pos = end
                continue
            # state 1: copying
            if hi is end:
                out.append((k, t))
                return seq(out)
            e = sub(hi, pos)
            if k == "A" and e.op == "i" and l.op == "i" and 0 < e.a[0] < l.a[0]:
                out += segs_of(subseq(t, I(0), e))
                return seq(out)
            out.append((k, t))
            pos = end
    if L.op == "i" and lo.op == "i" and hi.op == "i" and c.op != "rep" and c.op == "seq":
        k = known_elems(c)
        if k is not None and 0 <= lo.a[0] <= hi.a[0] <= len(k):
            return seq_of(k[lo.a[0]:hi.a[0]])
    return mk("sub", c, lo, hi)


def nonneg(t):
    """every unknown is unsigned: a linear term with nonnegative coefficients is >= 0"""
    k, d = lin_parts(t)
    return k >= 0 and all(c >= 0 for c in d.values())


def splice(c, lo, hi, new):
    """content c with [lo,hi) replaced by new (same length)"""
    return concat(subseq(c, I(0), lo), new, subseq(c, hi, length(c)))


# ---------------------------------------------------------------- substitution
def subst(t, m, mask, memo):
    """replace symbols (m: Term->Term) ; mask = OR of their bits"""
    if not (t.mask & mask):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        na = []
        for x in t.a:
            if type(x) is Term:
                na.append(subst(x, m, mask, memo))
            elif type(x) is tuple:
                na.append(tuple(subst(y, m, mask, memo) if type(y) is Term else y for y in x))
            else:
                na.append(x)
        if t.op == "lin":
            r = I(na[0])
            for i in range(1, len(na), 2):
                r = add(r, mulc(na[i], na[i + 1]))
        else:
            r = mk(t.op, *na)
            if t in LEN and r not in LEN:
                l = LEN[t]
                LEN[r] = subst(l, m, mask, memo)
    memo[t] = r
    return r


_stales = {}


def stales_of(t):
    r = _stales.get(t)
    if r is None:
        if t.op == "stale":
            r = frozenset([t.a])
        else:
            r = frozenset()
            for x in t.a:
                if type(x) is Term:
                    if x.mask & STALE:
                        r |= stales_of(x)
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is Term and y.mask & STALE:
                            r |= stales_of(y)
        _stales[t] = r
    return r


def syms(t):
    r = []
    m = t.mask & ~STALE
    while m:
        b = m & -m
        r.append(_symbynum[b])
        m ^= b
    return r


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if type(y) is Term:
                st.append(y)


# ---------------------------------------------------------------- shapes (partition keys)
COARSE = set()  # enum types whose variants are not kept apart at joins


def shape0(t):
    s = t.sh0
    if s is None:
        o = t.op
        if o in ("i", "b", "tag", "ref", "slm", "boxal", "fn"):
            s = t
        elif o == "agg":
            s = ("g", t.a[0], t.a[1]) + tuple(shape0(x) for x in t.a[2:]) if t.a[0] not in COARSE else "."
        elif o == "vref":
            s = shape0(t.a[0])
        elif o == "seq":
            s = ("s",) + tuple((x.op, shape0(x.a[0])) for x in t.a)
        elif o == "ths":
            s = ("h", t.a[0], shape0(t.a[1]))
        elif o in ("sit", "vit"):
            s = ("it",) + tuple(shape0(x) for x in t.a)
        elif o == "uninit":
            s = "u"
        elif o == "rec":
            s = (o, t.a[0])
        else:
            s = "."
        s = hash_shape(s)
        t.sh0 = s
    return s


def shape1(t):
    s = t.sh1
    if s is None:
        o = t.op
        if o in ("b", "tag", "ref", "slm", "boxal", "fn"):
            s = t
        elif o == "agg":
            s = ("g", t.a[0], t.a[1]) + tuple(shape1(x) for x in t.a[2:]) if t.a[0] not in COARSE else "."
        elif o == "vref":
            s = shape1(t.a[0])
        elif o == "ths":
            s = ("h", t.a[0])
        elif o == "uninit":
            s = "u"
        elif o == "rec":
            s = (o, t.a[0])
        else:
            s = "."
        s = hash_shape(s)
        t.sh1 = s
    return s


_shapes = {}


def hash_shape(s):
    r = _shapes.get(s)
    if r is None:
        r = len(_shapes)
        _shapes[s] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if type(t) is not Term:
        if type(t) is tuple:
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    o, a = t.op, t.a
    if o in ("i", "tag"):
        return str(a[0])
    if o == "b":
        return "true" if a[0] else "false"
    if d <= 0:
        return "…"
    if o == "sym":
        return "$" + "/".join(map(str, a[0])) if type(a[0]) is tuple else "$" + str(a[0])
    if o == "stale":
        return "~" + ("/".join(map(str, a[0])) if type(a[0]) is tuple else str(a[0]))
    if o == "lin":
        s = []
        for i in range(1, len(a), 2):
            s.append(("" if a[i + 1] == 1 else "%d*" % a[i + 1]) + show(a[i], d - 1))
        if a[0]:
            s.append(str(a[0]))
        return "+".join(s)
    if o == "seq":
        bs = []
        out = []
        for s in a:
            if s.op == "E" and s.a[0].op == "i":
                bs.append(s.a[0].a[0])
                continue
            if bs:
                out.append(repr(bytes(x & 255 for x in bs)))
                bs = []
            out.append(("" if s.op == "E" else "..") + show(s.a[0], d - 1))
        if bs:
            out.append(repr(bytes(x & 255 for x in bs)))
        return "[" + ", ".join(out) + "]"
    if o == "agg":
        return "T%s:%s{%s}" % (a[0], a[1], ", ".join(show(x, d - 1) for x in a[2:]))
    return o + "(" + ", ".join(show(x, d - 1) for x in a) + ")"
