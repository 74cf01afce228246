"""The big number library as a ring of terms: operations build terms, comparisons split the path and are remembered, so a
path carries the order relations it has established between terms; polynomial normal forms modulo the group order."""
import re
from lanes import *
from local import last

LT, EQ, GT = -1, 0, 1


def val(t):
    return t.a[1].a[0] if t.op == "app" and t.a[0] == "big" and type(t.a[1]) is Term and t.a[1].op == "i" else None


def big(n):
    return mk("app", "big", I(n))


def op(name, *a):
    v = [val(x) for x in a]
    if all(x is not None for x in v):
        if name == "+":
            return big(v[0] + v[1])
        if name == "-":
            return big(v[0] - v[1])
        if name == "*":
            return big(v[0] * v[1])
        if name == "neg":
            return big(-v[0])
    return mk("app", "big" + name, *a)


def relate(eng, st, a, b, eq=False):
    """-> [(state, -1|0|1)]: the possible orders of a and b, each with the relation recorded; eq: only equality is asked
    for, any other order is given as 1 and remembered as "not equal" """
    if a is b:
        return [(st, EQ)]
    x, y = val(a), val(b)
    if x is not None and y is not None:
        return [(st, (x > y) - (x < y))]
    k = mk("icmp", a, b)
    v = st.facts.get(k)
    if type(v) is int:
        return [(st, v)]
    out = v if type(v) is frozenset else frozenset()
    if eq and EQ in out:
        return [(st, GT)]
    r = []
    for o in (LT, EQ, GT):
        if o in out or eq and o == LT:
            continue
        s = st.copy()
        if eq and o == GT:
            s.facts[k] = s.facts[mk("icmp", b, a)] = out | {EQ}
        else:
            s.facts[k] = o
            s.facts[mk("icmp", b, a)] = -o
        r.append((s, o))
    return r


def relations(st, t):
    """[(other, order of t to other)] that the path has established"""
    return [(k.a[1], v) for k, v in st.facts.items() if k.op == "icmp" and k.a[0] is t]


BIN = {"add": "+", "sub": "-", "mul": "*", "rem": "%", "div": "/", "bitand": "&", "bitor": "|", "bitxor": "^", "shl": "<<", "shr": ">>", "pow": "**"}


def ibig_model(f):
    """the model of a function of the big number crate, or None"""
    d = f["d"]
    n = last(d)
    m = re.search(r"impl (?:std|core)::(?:ops|cmp|convert|clone)::(\w+)", d) or re.search(r" as (?:std|core)::(?:ops|cmp|convert|clone)::(\w+)", d)

    def get(eng, st, v):
        return eng.load_all(st, v)

    def h(eng, fr, b, st, f, vals, rty, atys):
        a = [get(eng, st, v) for v in vals]
        if n == "clone" or n == "from" and "UBig> for" in d or n in ("magnitude",):
            return [(st, a[0])]
        if n in ("eq", "ne"):
            return [(s, B((o == EQ) == (n == "eq"))) for s, o in relate(eng, st, a[0], a[1], True)]
        if n in ("cmp", "partial_cmp"):
            out = []
            for s, o in relate(eng, st, a[0], a[1]):
                T = eng.p.T[rty]
                oty = rty if n == "cmp" else T["args"][0]
                v = mk("agg", oty, o + 1)
                out.append((s, v if n == "cmp" else mk("agg", rty, 1, v)))
            return out
        if n == "from" or n in ("from_word",):
            if a[0].op in ("i",):
                return [(st, big(a[0].a[0]))]
            return [(st, mk("app", "big", a[0]))]
        if n == "neg":
            return [(st, op("neg", a[0]))]
        if n in BIN:
            if a[1].op == "i":
                a[1] = big(a[1].a[0])
            return [(st, op(BIN[n], *a))]
        if n.endswith("_assign") and n[:-7] in BIN:
            if a[1].op == "i":
                a[1] = big(a[1].a[0])
            eng.store(st, vals[0], op(BIN[n[:-7]], *a))
            return [(st, mk("agg", rty, 0))]
        if n in ("from_be_bytes", "from_le_bytes"):
            return [(st, mk("app", "int_be" if "be" in n else "int_le", a[0]))]
        if n == "try_from":
            return [(st, mk("agg", rty, 0, a[0]))]
        r = mk("app", d, *a)
        return [(st, r)]
    return h


class BigEngine(LaneEngine):
    def handler(self, f):
        h = self._hc.get(f["id"], 0)
        if h == 0 and not f["local"] and re.match(r"<?&?(ibig|<?ibig)::", f["d"]):
            suf = [m for s, m in self.models.items() if f["d"].endswith(s)]
            h = self._hc[f["id"]] = suf[0] if suf else ibig_model(f)
            return h
        return super().handler(f)


# ---- polynomials modulo n

class Ring:
    """normal forms modulo n; n: the term of the modulus"""

    def __init__(self, n):
        self.n, self.memo = n, {}
        self.unknown = set()

    def atom(self, t):
        return {(t,): 1}

    def poly(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.poly_(t)
        return r

    def poly_(self, t):
        if t is self.n:
            return {}
        v = val(t)
        if v is not None:
            return {(): v} if v else {}
        if t.op == "app":
            n = t.a[0]
            if n in ("mod", "big%") and t.a[2] is self.n:
                return self.poly(t.a[1])
            if n == "big+" or n == "big-":
                return self.addp(self.poly(t.a[1]), self.poly(t.a[2]), 1 if n == "big+" else -1)
            if n == "big*":
                return self.mulp(self.poly(t.a[1]), self.poly(t.a[2]))
            if n == "bigneg":
                return self.addp({}, self.poly(t.a[1]), -1)
            if n == "inv" and t.a[2] is self.n:
                return self.atom(mk("app", "inv", self.canon(t.a[1])))
            if n == "int_be":
                return self.atom(t)
            self.unknown.add(n)
            return self.atom(t)
        if t.op == "fld" and t.a[0].op == "app" and t.a[0].a[0] in ("pmul", "padd"):
            return self.atom(mk("fld", self.point(t.a[0]), *t.a[1:]))
        return self.atom(t)

    def addp(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + k * c
            if not r[m]:
                del r[m]
        return r

    def mulp(self, p, q):
        r = {}
        for m, c in p.items():
            for w, e in q.items():
                k = tuple(sorted(m + w, key=lambda t: t.id))
                r[k] = r.get(k, 0) + c * e
                if not r[k]:
                    del r[k]
        return r

    def canon(self, t):
        """a term that is equal for equal normal forms"""
        p = self.poly(t)
        return mk("poly", *sorted(((tuple(x.id for x in m), c) for m, c in p.items())))

    def point(self, t):
        t = eta(t)
        if t.op == "app" and t.a[0] == "pmul":
            return mk("app", "pmul", self.point(t.a[1]), self.canon(t.a[2]))
        if t.op == "app" and t.a[0] == "padd":
            return mk("app", "padd", *sorted((self.point(x) for x in t.a[1:3]), key=lambda x: x.id))
        return t


def eta(t):
    """a structure rebuilt from all the fields of another one is that one"""
    if t.op == "agg" and len(t.a) > 2:
        a = [eta(x) for x in t.a[2:]]
        b = a[0]
        if b.op == "fld" and b.a[1] == t.a[1] and all(x.op == "fld" and x.a[0] is b.a[0] and x.a[1] == t.a[1] and x.a[2] == i for i, x in enumerate(a)):
            return b.a[0]
        return mk("agg", *t.a[:2], *a)
    return t
