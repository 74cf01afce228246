"""Whole-program abstract interpreter over the extracted MIR.

ESP-style property simulation: abstract states are propagated over the control
flow graph to a fixpoint; states that agree on their control skeleton (enum
variants, booleans, small constants, references, monitor state) are merged at
join points by anti-unification, loops are widened.  Values are terms (terms.py).
Monitors observe events (socket I/O, AEAD calls, signature checks, ...).
"""
import heapq
import re
import sys
import time

from terms import *
import terms as TM

sys.setrecursionlimit(20000)


class Bug(Exception):
    pass


class GiveUp(Exception):
    """a pure function cannot be followed exactly: treat its result as an opaque function of its inputs"""


class Budget(Exception):
    pass


_KEYS = {}


def _strip(s):
    """remove generic argument lists, keep `<T as Trait>` and `<impl ..>` heads"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch == "<":
            j = i
            d = 0
            while j < n:
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            prev = out[-1] if out else ""
            inner = s[i + 1:j]
            if inner.startswith("impl ") and prev != "" or prev == "" and " as " in inner:
                out += ["<", _strip(inner), ">"]
            elif out[-2:] == [":", ":"]:
                out = out[:-2]
            i = j + 1
            continue
        out.append(ch)
        i += 1
    return "".join(out)


def _head(t):
    t = t.strip()
    if t.startswith("[") or t.startswith("&") or t.startswith("("):
        return t
    seg = t.split("::")
    if seg[-1] in ("Iter", "IterMut", "IntoIter", "Drain", "Chars", "Bytes", "Split", "Entry") and len(seg) > 1:
        return "::".join(seg[-2:])
    return seg[-1]


def stdkey(d):
    """canonical name: `Trait::method@Self` or `Type::method`"""
    k = _KEYS.get(d)
    if k is not None:
        return k
    s = _strip(d)
    k = None
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", s)
    if m:
        k = "%s::%s@%s" % (_head(m.group(2)), m.group(3), _head(m.group(1)))
    else:
        m = re.match(r"^.*<impl (.*) for (.*)>::(\w+)$", s)
        if m:
            k = "%s::%s@%s" % (_head(m.group(1)), m.group(3), _head(m.group(2)))
        else:
            m = re.match(r"^.*<impl (.*)>::(\w+)$", s)
            if m:
                k = "%s::%s" % (_head(m.group(1)), m.group(2))
            else:
                k = "::".join(s.split("::")[-2:])
    _KEYS[d] = k
    return k


# standard library modules whose bodies are plain safe code and are simply followed
_INL = re.compile(r"^<?(?:&(?:'a )?(?:mut )?)?(?:std|core)::(option|result|cmp|ops|convert|borrow|iter|mem|clone|num|array|bool|hint|char|default|tuple|intrinsics)\b")
_INL2 = re.compile(r"^(?:<(?:I|T|&mut T|&T|&mut I|u8|u16|u32|u64|usize|bool|\(\)) as |std::array::<impl std::clone::Clone|core::num::|core::bool::|core::char::)")


def std_inlinable(d):
    return bool(_INL.match(d) or _INL2.match(d))


def std_opaque(eng, fr, b, st, f, vals, rty, atys):
    eng.stats["unmodelled"][f["d"]] = eng.stats["unmodelled"].get(f["d"], 0) + 1
    return [(st, eng.opaque(fr, st, f["d"], vals, atys))]


class St:
    __slots__ = ("mem", "facts", "cfacts")

    def __init__(self, mem=None, facts=None, cfacts=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.cfacts = cfacts if cfacts is not None else frozenset()

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.cfacts)

    # monitor slots live in memory so that they are joined like everything else
    def m(self, name, default=None):
        return self.mem.get(("mon", name), default)

    def mset(self, name, v):
        self.mem[("mon", name)] = v

    def tag(self, name):
        v = self.mem.get(("mon", name))
        return v.a[0] if v is not None else 0

    def settag(self, name, n):
        self.mem[("mon", name)] = mk("tag", n)


class Fr:
    """an activation: function + context number"""
    __slots__ = ("f", "ctx", "cfg", "depth", "pure", "und", "visits", "parent", "bb", "steps", "direct")


TRANSPARENT = {"std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling",
               "core::mem::MaybeUninit", "core::mem::ManuallyDrop", "core::mem::MaybeDangling",
               "std::mem::maybe_dangling::MaybeDangling"}


class Cfg:
    """control flow facts of one function body (normal edges only)"""

    def __init__(self, f, prog):
        bl = f["bl"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "sw":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            self.succ[i] = [x for x in dict.fromkeys(s) if x is not None]
        # reachable, rpo
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onst = {0}
        self.back = set()
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    onst.add(v)
                    stack.append((v, iter(self.succ[v])))
                    break
                elif v in onst:
                    self.back.add((u, v))
            else:
                order.append(u)
                onst.discard(u)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.reach = seen
        self.pred = {b: [] for b in seen}
        for u in seen:
            for v in self.succ[u]:
                self.pred[v].append(u)
        self.heads = {v for _, v in self.back}
        self.loop = {}  # head -> set of blocks
        for u, h in self.back:
            L = self.loop.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in L:
                    continue
                L.add(x)
                st += self.pred[x]
        self.joins = {b for b in seen if len(self.pred[b]) > 1}
        # innermost loop head of every block
        self.inner = {}
        for h, L in sorted(self.loop.items(), key=lambda x: -len(x[1])):
            for b in L:
                self.inner[b] = h
        self._live(f, bl)

    # ---- liveness (locals whose address is taken mutably stay live until StorageDead)
    def _live(self, f, bl):
        n = len(f["lt"])
        taken = set()

        def pl_uses(pl, s):
            s.add(pl[0])
            for e in pl[1:]:
                if type(e) is list and e[0] == "i":
                    s.add(e[1])

        def op_uses(o, s):
            p = o.get("cp") or o.get("mv")
            if p:
                pl_uses(p, s)

        def rv_uses(r, s):
            k = r[0]
            if k in ("use", "repeat"):
                op_uses(r[1], s)
            elif k in ("ref", "addr"):
                pl_uses(r[1], s)
                if (k == "addr" or r[2]) and "*" not in r[1][1:]:
                    taken.add(r[1][0])
            elif k == "agg":
                for o in r[2]:
                    op_uses(o, s)
            elif k in ("bin", "chk"):
                op_uses(r[2], s)
                op_uses(r[3], s)
            elif k == "cast":
                op_uses(r[2], s)
                o = r[2].get("cp") or r[2].get("mv")
                if r[1] == "BoxDerefTransmute" and o and "*" not in o[1:]:
                    taken.add(o[0])       # the pointer names the box
            elif k in ("discr", "len"):
                pl_uses(r[1], s)
            elif k == "un":
                op_uses(r[2], s)

        use, deff = {}, {}
        for b in self.reach:
            u, d = set(), set()

            def U(s):
                u.update(x for x in s if x not in d)
            for s in bl[b]["s"]:
                if s[0] == "=":
                    x = set()
                    rv_uses(s[2], x)
                    if len(s[1]) > 1:
                        pl_uses(s[1], x)
                    U(x)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == "sd":
                    x = set()
                    pl_uses(s[1], x)
                    U(x)
                elif s[0] in ("sl", "sx"):
                    d.add(s[1])
            t = bl[b]["t"]
            x = set()
            if t[0] == "sw":
                op_uses(t[1], x)
            elif t[0] == "assert":
                op_uses(t[1], x)
            elif t[0] == "call":
                for o in t[2]:
                    op_uses(o, x)
                if len(t[3]) > 1:
                    pl_uses(t[3], x)
                if t[1]["k"] == "ptr" or "op" in t[1]:
                    o = t[1].get("op")
                    if o:
                        op_uses(o, x)
            elif t[0] == "ret":
                x.add(0)
            U(x)
            if t[0] == "call" and len(t[3]) == 1:
                d.add(t[3][0])
            use[b], deff[b] = u, d
        live_in = {b: set() for b in self.reach}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live_in[s]
                i = use[b] | (o - deff[b])
                if i != live_in[b]:
                    live_in[b] = i
                    ch = True
        self.live_in = live_in
        self.live_out = {b: set().union(*[live_in[s] for s in self.succ[b]]) if self.succ[b] else set()
                         for b in self.reach}
        self.taken = taken


class Program:
    def __init__(self, j):
        self.j = j
        self.T = j["types"]
        self.F = {f["id"]: f for f in j["fns"]}
        self.cfgs = {}
        self.impl_of = {}   # fn id -> (trait, method, self type)
        self.impls = {}     # (trait method, self type) -> fn id
        for im in j["impls"]:
            for tm, fid in im["m"]:
                self.impl_of[fid] = (im["trait"], tm.split("::")[-1], im["self"])
                self.impls[(tm, im["self"])] = fid
        self.by_d = {}
        for f in j["fns"]:
            self.by_d.setdefault(f["d"], []).append(f)
        self.discr_of = {}

    def cfg(self, f):
        c = self.cfgs.get(f["id"])
        if c is None:
            c = self.cfgs[f["id"]] = Cfg(f, self)
        return c

    def ty(self, i):
        return self.T[i]

    def tname(self, i):
        t = self.T[i]
        n = t.get("n")
        if n:
            return n
        k = t["k"]
        if k == "ref":
            return "&" + ("mut " if t.get("mut") else "") + self.tname(t["e"])
        if k == "slice":
            return "[%s]" % self.tname(t["e"])
        if k == "array":
            return "[%s;%d]" % (self.tname(t["e"]), t["len"])
        return k

    def find(self, suffix, kind=None):
        """local function whose definition path ends with `suffix`"""
        r = [f for f in self.j["fns"] if f["d"].endswith(suffix) and f.get("bl") and f["k"] == "item"]
        return r

    def one(self, suffix):
        r = self.find(suffix)
        if not r:
            raise Bug("anchor function not found: " + suffix)
        return r[0]

    def int_info(self, ty):
        t = self.T[ty]
        if t["k"] == "int":
            return t["b"], t["s"]
        if t["k"] == "bool":
            return 1, False
        if t["k"] == "char":
            return 32, False
        return 64, False

    def is_box(self, ty):
        t = self.T[ty]
        return t["k"] == "adt" and bool(t.get("box"))

    def variant_discr(self, ty, var):
        return self.T[ty]["v"][var]["d"]


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Engine:
    LOOP_MAX = 300
    JOIN_MAX = 24

    def __init__(self, prog, monitors=(), intrinsics=None, handlers=None):
        self.p = prog
        self.monitors = list(monitors)
        self.call_mons = [m for m in self.monitors if hasattr(m, "on_called")]
        self.bin_mons = [m for m in self.monitors if hasattr(m, "on_bin")]
        self.agg_mons = [m for m in self.monitors if hasattr(m, "on_agg")]
        self.intr = intrinsics or {}
        self.ctxs = {}
        self.ctx_info = {}
        self.opaque_fns = set()
        self.memo_eventful = None
        self.stats = {"blocks": 0, "calls": 0, "joins": 0, "opaque": {}, "inlined": set(), "havoc": {}, "events": {}, "unmodelled": {}}
        self.fork_iter = False
        self.max_blocks = 3000000
        self.deadline = None
        self.pure_stack = []
        self.frames = []
        self.next_direct = True
        self.from_call = False
        self.g_und = {}
        self.g_seen = {}
        self.cur = None
        self.joinbits = {}
        self.extra_phase = None
        self.split_types = {}

    # ------------------------------------------------------------------ contexts
    def ctx(self, parent, bb, fid):
        k = (parent, bb, fid)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
            self.ctx_info[c] = k
        return c

    def ctx_str(self, c):
        r = []
        while c in self.ctx_info:
            par, bb, fid = self.ctx_info[c]
            f = self.p.F[fid]
            r.append(f["d"].split("::")[-1])
            c = par
        return " < ".join(r)

    def where(self, fr, bb=None):
        """function name, call chain, file:line of the current point"""
        bb = fr.bb if bb is None else bb
        fn = fr.f
        l = fn["bl"][bb]["l"]
        file = self.p.j["files"][l[0]] if isinstance(l[0], int) else l[0]
        return {"fn": fn["d"], "line": l[1], "file": file, "chain": self.ctx_str(fr.ctx)}

    # ------------------------------------------------------------------ events
    def event(self, st, fr, kind, **kw):
        self.stats["events"][kind] = self.stats["events"].get(kind, 0) + 1
        for mo in self.monitors:
            h = getattr(mo, "on_" + kind, None)
            if h:
                h(self, st, fr, **kw)

    # ------------------------------------------------------------------ consts
    def const(self, c):
        if "i" in c:
            t = c.get("t")
            if t is not None and self.p.T[t]["k"] == "bool":
                return B(c["i"])
            return I(c["i"])
        if "bytes" in c:  # string literal
            return mk("vref", bytes_term(c["bytes"]))
        if "arr" in c:
            return seq_of([self.const(x) for x in c["arr"]])
        if "sl" in c:
            return mk("vref", seq_of([self.const(x) for x in c["sl"]])) if isinstance(c["sl"], list) \
                else mk("vref", self.const(c["sl"]))
        if "ref" in c:
            return mk("vref", self.const(c["ref"]))
        if "agg" in c:
            return mk("agg", c["t"], c["agg"], *[self.const(x) for x in c["f"]])
        if "static" in c:
            n = c["static"]
            for s in self.p.j["statics"]:
                if s["n"] == n and isinstance(s.get("v"), dict) and "unk" not in s["v"]:
                    return mk("vref", mk("app", "static:" + n))
            return mk("vref", mk("app", "static:" + str(n)))
        if "fn" in c:
            return mk("fn", c["fn"])
        if "zst" in c:
            ty = self.p.T[c["zst"]]
            if ty["k"] == "fndef":
                return mk("agg", c["zst"], 0)
            return mk("agg", c["zst"], 0)
        return mk("app", "const:" + str(sorted(c.items()))[:200])

    # ------------------------------------------------------------------ places
    # cursor: (kind, root/val, path, ty, lo, hi, boxptr)
    def place(self, st, fr, pl):
        p = self.p
        f = fr.f
        ty = f["lt"][pl[0]]
        cur = ["L", (fr.ctx, pl[0]), (), ty, None, None, False]
        var = 0
        for e in pl[1:]:
            if e == "*":
                t = p.T[cur[3]]
                if t["k"] == "adt" and t.get("box"):
                    self.unalias(st, cur)
                    cur[3] = t["args"][0]
                    cur[6] = False
                    var = 0
                    continue
                if cur[6]:  # raw pointer inside a box: the box content itself
                    cur[6] = False
                    if t["k"] in ("ptr", "ref"):
                        cur[3] = t["e"]
                    var = 0
                    continue
                v = self.read(st, cur)
                ety = t.get("e", cur[3])
                cur = self.deref(v, ety)
                var = 0
                continue
            k = e[0]
            if k == "v":
                var = e[1]
                continue
            if k == "f":
                t = p.T[cur[3]]
                if cur[6]:
                    cur[3] = e[2]
                    continue
                if t["k"] == "adt":
                    if t.get("box"):
                        self.unalias(st, cur)
                        cur[6] = True
                        cur[3] = e[2]
                        continue
                    if t.get("d") in TRANSPARENT:
                        cur[3] = e[2]
                        continue
                if cur[0] == "L":
                    cur[2] = cur[2] + (mk("pf", var, e[1], cur[3]),)
                else:
                    cur[1] = self.field(cur[1], var, e[1])
                    self.note_len(cur[1], e[2])
                cur[3] = e[2]
                var = 0
                continue
            if k == "i":
                idx = st.mem.get((fr.ctx, e[1]), UNINIT)
                self.index(cur, idx, st)
                continue
            if k == "ci":
                off, _, fe = e[1], e[2], e[3]
                if fe:
                    idx = sub(self.curlen(st, cur), I(off))
                else:
                    idx = I(off)
                self.index(cur, idx, st)
                continue
            if k == "ss":
                lo, hi, fe = e[1], e[2], e[3]
                L = self.curlen(st, cur)
                h = sub(L, I(hi)) if fe else I(hi)
                if cur[0] == "V":
                    cur[1] = subseq(cur[1], I(lo), h)
                else:
                    base = cur[4] or I(0)
                    cur[4], cur[5] = add(base, I(lo)), add(base, h)
                continue
            # other projections: ignore (opaque casts)
        return cur

    def unalias(self, st, cur):
        """a bitwise copy of a box (made by the compiler before it dereferences one) names the original"""
        if cur[0] == "L" and not cur[2]:
            v = st.mem.get(cur[1])
            if v is not None and v.op == "boxal":
                cur[1], cur[2] = v.a[0], v.a[1:]

    def deref(self, v, ety):
        if v.op == "ref":
            return ["L", v.a[0], v.a[1:], ety, None, None, False]
        if v.op == "slm":
            return ["L", v.a[2], v.a[3:], ety, v.a[0], v.a[1], False]
        if v.op == "vref":
            return ["V", v.a[0], None, ety, None, None, False]
        t = mk("deref", v)
        self.note_len(t, ety)
        return ["L", ("d", v), (), ety, None, None, False]

    def note_len(self, t, ty):
        T = self.p.T[ty]
        if T["k"] == "array" and t.op not in ("seq", "sub", "upd", "uninit"):
            set_len(t, I(T["len"]))

    def index(self, cur, idx, st):
        t = self.p.T[cur[3]]
        ety = t.get("e", cur[3])
        if cur[0] == "V":
            cur[1] = elem(cur[1], idx)
        else:
            if cur[4] is not None:
                idx = add(cur[4], idx)
                cur[4] = cur[5] = None
            cur[2] = cur[2] + (mk("px", idx),)
        cur[3] = ety

    def curlen(self, st, cur):
        if cur[4] is not None:
            return sub(cur[5], cur[4])
        t = self.p.T[cur[3]]
        if t["k"] == "array":
            return I(t["len"])
        return length(self.read(st, cur))

    def field(self, v, var, i):
        if v.op == "agg":
            if v.a[1] == var and len(v.a) > i + 2:
                return v.a[i + 2]
            return mk("app", "badfield", v, I(var), I(i))
        if v.op == "uninit":
            return UNINIT
        return mk("fld", v, var, i)

    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if type(root) is tuple and root[0] == "d":
                return mk("deref", root[1])
            return UNINIT
        return v

    def read(self, st, cur):
        if cur[0] == "V":
            v = cur[1]
            if cur[6]:
                return mk("vref", v)
            return v
        if cur[6]:
            return mk("ref", cur[1], *cur[2])
        v = self.root_val(st, cur[1])
        for e in cur[2]:
            if e.op == "pf":
                v = self.field(v, e.a[0], e.a[1])
            else:
                v = elem(v, e.a[0])
        if cur[4] is not None:
            v = subseq(v, cur[4], cur[5])
        elif v.op not in ("agg", "i", "b", "seq"):
            self.note_len(v, cur[3])
        return v

    def write(self, st, cur, v):
        if cur[0] == "V":
            return  # write through a shared snapshot: cannot happen in safe code
        if cur[4] is not None:
            old = self.root_read(st, cur[1], cur[2])
            v = splice(old, cur[4], cur[5], v)
        self.root_write(st, cur[1], cur[2], v)

    def root_read(self, st, root, path):
        v = self.root_val(st, root)
        for e in path:
            v = self.field(v, e.a[0], e.a[1]) if e.op == "pf" else elem(v, e.a[0])
        return v

    def root_write(self, st, root, path, v):
        st.mem[root] = self._put(self.root_val(st, root), path, 0, v)

    def _put(self, base, path, k, v):
        if k == len(path):
            return v
        e = path[k]
        if e.op == "px":
            return update(base, e.a[0], self._put(elem(base, e.a[0]), path, k + 1, v) if k + 1 < len(path) else v)
        var, i, ty = e.a
        t = self.p.T[ty]
        if base.op == "agg" and base.a[1] == var and len(base.a) > i + 2:
            a = list(base.a)
            a[i + 2] = self._put(a[i + 2], path, k + 1, v)
            return mk("agg", *a)
        if t["k"] == "adt":
            n = len(t["v"][var]["f"])
        elif t["k"] in ("tuple", "closure"):
            n = len(t["f"])
        else:
            n = i + 1
        fs = [self.field(base, var, j) if base.op not in ("agg",) else UNINIT for j in range(n)]
        fs[i] = self._put(fs[i], path, k + 1, v)
        return mk("agg", ty, var, *fs)

    # read/write through a reference value
    def load(self, st, r):
        if r.op == "vref":
            return r.a[0]
        if r.op == "ref":
            return self.root_read(st, r.a[0], r.a[1:])
        if r.op == "slm":
            return subseq(self.root_read(st, r.a[2], r.a[3:]), r.a[0], r.a[1])
        v = st.mem.get(("d", r))
        return v if v is not None else mk("deref", r)

    def store(self, st, r, v):
        if r.op == "ref":
            self.root_write(st, r.a[0], r.a[1:], v)
        elif r.op == "slm":
            old = self.root_read(st, r.a[2], r.a[3:])
            self.root_write(st, r.a[2], r.a[3:], splice(old, r.a[0], r.a[1], v))
        elif r.op == "vref":
            pass
        else:
            st.mem[("d", r)] = v

    def load_all(self, st, v, n=8):
        """follow references to the underlying value"""
        while n and v.op in ("ref", "vref", "slm"):
            v = self.load(st, v)
            n -= 1
        return v

    def deep(self, st, v, d=0):
        """value with all references replaced by what they point to (for opaque applications)"""
        if d > 6:
            return v
        if v.op in ("ref", "slm", "vref"):
            return mk("vref", self.deep(st, self.load(st, v), d + 1))
        if v.op == "agg" and any(type(x) is Term and x.op in ("ref", "slm", "vref", "agg") for x in v.a[2:]):
            return mk("agg", v.a[0], v.a[1], *[self.deep(st, x, d + 1) for x in v.a[2:]])
        if v.op == "sitm":
            return mk("app", "sitm", self.deep(st, mk("slm", *v.a), d + 1))
        return v

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        p = o.get("cp")
        if p is not None:
            if len(p) == 1:
                v = st.mem.get((fr.ctx, p[0]))
                return v if v is not None else UNINIT
            return self.read(st, self.place(st, fr, p))
        p = o.get("mv")
        if p is not None:
            # a value that has been moved out can never be read again
            if len(p) == 1:
                v = st.mem.pop((fr.ctx, p[0]), None)
                return v if v is not None else UNINIT
            cur = self.place(st, fr, p)
            v = self.read(st, cur)
            if v.op == "agg" and "*" not in p and cur[0] == "L" and cur[4] is None and not cur[6]:
                self.write(st, cur, UNINIT)
            return v
        if "k" in o:
            return self.const(o["k"])
        return B(0)  # runtime checks flag

    def opty(self, fr, o):
        p = o.get("cp") or o.get("mv")
        if p is not None:
            ty = fr.f["lt"][p[0]]
            for e in p[1:]:
                T = self.p.T[ty]
                if e == "*":
                    ty = T["args"][0] if T["k"] == "adt" and T.get("box") else T.get("e", ty)
                elif e[0] == "f":
                    ty = e[2]
                elif e[0] in ("i", "ci"):
                    ty = T.get("e", ty)
            return ty
        k = o.get("k", {})
        return k.get("t", k.get("zst"))

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        p = self.p
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "addr":
            cur = self.place(st, fr, r[1])
            mut = True if k == "addr" else r[2]
            if k == "addr" and len(r) > 2:
                mut = r[2]
            if not mut:
                return mk("vref", self.read(st, cur))
            if cur[0] == "V":
                return mk("vref", cur[1])
            if cur[4] is not None:
                return mk("slm", cur[4], cur[5], cur[1], *cur[2])
            t = p.T[cur[3]]
            return mk("ref", cur[1], *cur[2])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            if kind[0] == "adt":
                if p.T[kind[1]].get("d") in TRANSPARENT and ops:
                    return ops[0]
                if self.agg_mons:
                    for mo in self.agg_mons:
                        mo.on_agg(self, st, fr, kind[1], kind[2], ops)
                return mk("agg", kind[1], kind[2], *ops)
            if kind[0] == "array":
                return seq_of(ops)
            if kind[0] in ("tuple", "closure"):
                return mk("agg", dty, 0, *ops)
            if kind[0] == "rawptr":
                return ops[0]
            return mk("app", "agg:" + str(kind[0]), *ops)
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if self.bin_mons:
                for mo in self.bin_mons:
                    mo.on_bin(self, st, fr, r[1], a, b)
            if r[1] == "Cmp" and a.op == "i" and b.op == "i":
                lt, gt = self.lt(st, a, b, True), self.lt(st, b, a, True)
                if lt.op == "b" and gt.op == "b":
                    return mk("agg", dty, 0 if lt.a[0] else 2 if gt.a[0] else 1)
            return self.binop(st, r[1], a, b, self.opty(fr, r[2]))
        if k == "chk":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return mk("agg", dty, 0, self.arith(r[1], a, b, self.opty(fr, r[2])), T0)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r[1], v, self.opty(fr, r[2]), r[3], r[2])
        if k == "discr":
            cur = self.place(st, fr, r[1])
            v = self.read(st, cur)
            d = self.discr(v)
            if d.op == "discr" and self.split_types and self.place_ty(fr, r[1]) in self.split_types:
                w = self.split_types[self.place_ty(fr, r[1])]
                if w is not None and self.lookup(st, d) is None:
                    self.assume(st, d, w, fr)
            return d
        if k == "len":
            return self.curlen(st, self.place(st, fr, r[1]))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = p.T[dty].get("len", r[2] if len(r) > 2 else 0)
            if n <= 512:
                return seq_of([v] * n)
            return set_len(mk("rep", v, n), I(n))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return self.bnot(v, self.opty(fr, r[2]))
            if r[1] == "Neg":
                if v.op == "i":
                    return I(-v.a[0])
                return mk("neg", v)
            if r[1] == "PtrMetadata":
                if v.op == "slm":
                    return sub(v.a[1], v.a[0])
                if v.op == "vref":
                    return length(v.a[0])
                if v.op == "ref":
                    return length(self.load(st, v))
                return length(mk("deref", v))
            return mk("app", "un:" + r[1], v)
        if k == "tls":
            return mk("app", "tls")
        return mk("app", "rv:" + k)

    def discr(self, v):
        if v.op == "agg":
            t = self.p.T[v.a[0]]
            if t["k"] == "adt" and t["a"] == "enum":
                return I(t["v"][v.a[1]]["d"])
            return I(0)
        return mk("discr", v)

    def bnot(self, v, ty):
        if v.op == "b":
            return B(1 - v.a[0])
        if v.op == "not":
            return v.a[0]
        if v.op == "i":
            bits, sg = self.p.int_info(ty)
            return I(~v.a[0] & ((1 << bits) - 1)) if not sg else I(~v.a[0])
        if v.op == "bin" and v.a[0] == "Lt":
            return mk("not", v)
        return mk("not", v)

    def cast(self, st, fr, kind, v, fty, tty, o):
        p = self.p
        if kind.startswith("PointerCoercion(Unsize"):
            # &mut [T;N] -> &mut [T]
            T = p.T[fty]
            e = None
            if T["k"] in ("ref", "ptr"):
                e = p.T[T["e"]]
            if e is not None and e["k"] == "array":
                if v.op == "ref":
                    return mk("slm", I(0), I(e["len"]), *v.a)
                if v.op == "vref":
                    if v.a[0].op not in ("seq",):
                        set_len(v.a[0], I(e["len"]))
                    return v
            return v
        if kind in ("IntToInt",):
            fb, fs = p.int_info(fty)
            tb, ts = p.int_info(tty)
            if p.T[fty]["k"] == "adt":
                return v
            if v.op in ("i", "b"):
                n = v.a[0]
                if fs:
                    n = signed(n, fb)
                n &= (1 << tb) - 1
                if ts:
                    n = signed(n, tb)
                return I(n)
            if tb >= fb and (not fs or ts):
                return v
            if v.op == "discr":
                return v
            if tb < fb:
                if v.op == "trunc" and v.a[0] <= tb:
                    return v
                return mk("trunc", tb, v)
            return mk("cast", tb * 2 + (1 if ts else 0), v)
        if kind in ("Transmute", "BoxDerefTransmute", "PtrToPtr", "FnPtrToPtr", "PointerCoercion(ReifyFnPointer(Safe))",
                    "PointerCoercion(MutToConstPointer)"):
            return v
        if kind.startswith("PointerCoercion"):
            if kind.startswith("PointerCoercion(ArrayToPointer"):
                return v
            return v
        if v.op == "i" and kind == "IntToFloat":
            return mk("flt", float(v.a[0]).hex())
        return mk("app", "cast:" + kind, v)

    def arith(self, op, a, b, ty):
        """overflow-checked arithmetic: the overflowing outcome panics, so the result is the mathematical one"""
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            if a.op == "i":
                return mulc(b, a.a[0])
            if b.op == "i":
                return mulc(a, b.a[0])
            return mk("bin", "Mul", *sorted((a, b), key=lambda t: t.id))
        return mk("bin", op, a, b)

    def binop(self, st, op, a, b, ty):
        bits, sg = self.p.int_info(ty) if ty is not None else (64, False)
        M = (1 << bits) - 1
        if op in ("Eq", "Ne"):
            r = self.eq(st, a, b)
            return r if op == "Eq" else self.bnot(r, ty)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if sg:
                a, b = [I(signed(x.a[0], bits)) if x.op == "i" else x for x in (a, b)]
            if op == "Gt":
                return self.lt(st, b, a, sg)
            if op == "Ge":
                return self.bnot(self.lt(st, a, b, sg), ty)
            if op == "Le":
                return self.bnot(self.lt(st, b, a, sg), ty)
            return self.lt(st, a, b, sg)
        ca, cb = a.op in ("i", "b"), b.op in ("i", "b")
        isb = a.op == "b" and b.op == "b"
        if ca and cb:
            x, y = a.a[0], b.a[0]
            if op in ("Add", "AddUnchecked"):
                r = x + y
            elif op in ("Sub", "SubUnchecked"):
                r = x - y
            elif op in ("Mul", "MulUnchecked"):
                r = x * y
            elif op == "BitAnd":
                r = x & y
            elif op == "BitOr":
                r = x | y
            elif op == "BitXor":
                r = x ^ y
            elif op in ("Shl", "ShlUnchecked"):
                r = x << (y & (bits - 1))
            elif op in ("Shr", "ShrUnchecked"):
                r = x >> (y & (bits - 1))
            elif op == "Div" and y:
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == "Rem" and y:
                r = abs(x) % abs(y) * (-1 if x < 0 else 1)
            elif op == "Cmp":
                return mk("app", "cmp3", a, b)
            else:
                return mk("bin", op, a, b)
            if isb:
                return B(r & 1)
            r &= M
            return I(signed(r, bits) if sg else r)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.arith(op[:3], a, b, ty)
        if op in ("Add", "Sub") and (a.op == "i" or b.op == "i") or op == "Offset":
            # unchecked wrapping arithmetic on unknowns
            if op == "Offset":
                return mk("app", "offset", a, b)
        if op in ("BitOr", "BitXor", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and b.op == "i" and b.a[0] == 0:
            return a
        if op in ("BitOr", "BitXor") and a.op == "i" and a.a[0] == 0:
            return b
        if a.op == "b" or b.op == "b":
            c, o = (a, b) if a.op == "b" else (b, a)
            if op == "BitAnd":
                return o if c.a[0] else T0
            if op == "BitOr":
                return T1 if c.a[0] else o
        if op in ("Shl", "ShlUnchecked") and b.op == "i" and bits >= 64 and a.op != "trunc":
            return mk("bin", "Shl", a, b)
        if op in ("BitAnd", "BitOr", "BitXor", "Mul", "Add"):
            a, b = sorted((a, b), key=lambda t: t.id)
        if op == "ShlUnchecked":
            op = "Shl"
        if op == "ShrUnchecked":
            op = "Shr"
        return mk("bin", op, a, b)

    def eq(self, st, a, b):
        if a is b:
            if a.mask & STALE:
                return mk("eq", a, b)
            return T1
        ca, cb = a.op in ("i", "b"), b.op in ("i", "b")
        if ca and cb:
            return B(a.a[0] == b.a[0])
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return T0
        if a.op == "seq" or b.op == "seq":
            la, lb = length(a), length(b)
            d = sub(la, lb)
            if d.op == "i" and d.a[0] != 0:
                return T0
            ka, kb = (known_elems(a), known_elems(b)) if la.op == "i" and lb.op == "i" and la.a[0] <= 64 else (None, None)
            if ka is not None and kb is not None:
                if any(x.op in ("i",) and y.op in ("i",) and x is not y for x, y in zip(ka, kb)):
                    return T0
        elif a in LEN and b in LEN or a.op == "sub" or b.op == "sub":
            la, lb = length(a), length(b)
            if la.op == "i" and lb.op == "i" and la is not lb:
                return T0
        if a.op in ("lin", "i") or b.op in ("lin", "i"):
            d = sub(a, b)
            if d.op == "i":
                return B(d.a[0] == 0)
            if b.op == "lin" and a.op != "i":
                # canonical form: difference == 0
                pass
        x, y = sorted((a, b), key=lambda t: (t.op in ("i", "b"), t.id))
        # bool == const
        if y.op == "b":
            return x if y.a[0] else self.bnot(x, 0)
        return mk("eq", x, y)

    def lt(self, st, a, b, sg):
        if a.op in ("i", "b") and b.op in ("i", "b"):
            return B(a.a[0] < b.a[0])
        if not sg:
            if nonneg(sub(a, b)):
                return T0
            d = sub(sub(b, a), I(1))
            if nonneg(d):
                return T1
        return mk("lt", a, b)

    # ------------------------------------------------------------------ facts
    def lookup(self, st, t):
        """constant value of t under the state's facts, or None"""
        if t.op in ("i", "b"):
            return t.a[0]
        f = st.facts.get(t)
        if f is not None and type(f) is int:
            return f
        if t.op == "not":
            v = self.lookup(st, t.a[0])
            return None if v is None else 1 - v
        if t.op == "eq":
            x, y = t.a
            fx = st.facts.get(x)
            if y.op in ("i", "b") and fx is not None:
                if type(fx) is int:
                    return 1 if fx == y.a[0] else 0
                if y.a[0] in fx:
                    return 0
            vx, vy = self.lookup(st, x), self.lookup(st, y)
            if vx is not None and vy is not None:
                return 1 if vx == vy else 0
        if t.op == "lt":
            vx, vy = self.lookup(st, t.a[0]), self.lookup(st, t.a[1])
            if vx is not None and vy is not None:
                return 1 if vx < vy else 0
            if t.a[0].op == "i" and t.a[0].a[0] == 0 and t.a[1].op == "sym":
                f = st.facts.get(t.a[1])
                if type(f) is frozenset and 0 in f and nonneg(t.a[1]):
                    return 1
        if t.op == "lin":
            k = t.a[0]
            for i in range(1, len(t.a), 2):
                v = self.lookup(st, t.a[i])
                if v is None:
                    return None
                k += v * t.a[i + 1]
            return k
        if t.op == "trunc":
            v = self.lookup(st, t.a[1])
            return None if v is None else v & ((1 << t.a[0]) - 1)
        return None

    def assume(self, st, t, val, fr):
        """record t == val in st (in place); returns False if contradictory"""
        v = self.lookup(st, t)
        if v is not None:
            return v == val
        if t.op == "not":
            return self.assume(st, t.a[0], 1 - val, fr)
        f = st.facts.get(t)
        if f is not None and type(f) is not int and val in f:
            return False
        if not (t.mask & STALE):
            self.setfact(st, t, val)
        if t.op == "eq" and t.a[1].op in ("i", "b") and t.a[1] is not t.a[0]:
            if val:
                self.setfact(st, t.a[0], t.a[1].a[0])
            else:
                f = st.facts.get(t.a[0])
                if type(f) is int:
                    return f != t.a[1].a[0]
                self.setfact(st, t.a[0], (f or frozenset()) | {t.a[1].a[0]})
        for mo in self.monitors:
            h = getattr(mo, "on_assume", None)
            if h:
                h(self, st, fr, t, val)
        return True

    def setfact(self, st, t, v):
        if t.mask & STALE:
            return
        st.facts[t] = v
        if type(v) is int and (t.mask and not (t.mask & ~self.param_mask) and t.op in ("discr", "fld", "deref", "sym")):
            st.cfacts = st.cfacts | {(t, v)}

    param_mask = 0

    def param(self, name):
        t = mk("sym", ("param", name))
        self.param_mask |= t.mask
        return t

    def fresh(self, st, fr, name):
        """a new unknown, named by program point and phase; older namesakes become stale"""
        ph = self.phase(st)
        n = (name, fr.ctx, fr.bb, ph)
        t = mk("sym", n)
        self.stale_out(st, t.mask, [t])
        return t

    def phase(self, st):
        v = st.mem.get(("mon", "phase"))
        return v.a[0] if v is not None else 0

    def stale_out(self, st, mask, names):
        """rename symbols that are about to denote something else; a name already used by an older value gets an index,
        so that within one state different values keep different names"""
        hit = False
        for r, v in st.mem.items():
            if v.mask & mask:
                hit = True
                break
        if not hit and not any(t.mask & mask for t in st.facts) and \
                not any(type(r) is tuple and r[0] == "d" and r[1].mask & mask for r in st.mem):
            return
        used = set()
        for r, v in st.mem.items():
            if v.mask & STALE:
                used |= stales_of(v)
            if type(r) is tuple and len(r) == 2 and type(r[1]) is Term and r[1].mask & STALE:
                used |= stales_of(r[1])
        m = {}
        for s in names:
            k = 0
            while (s.a[0], k) in used:
                k += 1
            m[s] = mk("stale", s.a[0], k)
        memo = {}
        new = {}
        for r, v in st.mem.items():
            if type(r) is tuple and len(r) == 2 and type(r[1]) is Term and r[1].mask & mask:
                r = (r[0], subst(r[1], m, mask, memo))
            new[r] = subst(v, m, mask, memo) if v.mask & mask else v
        st.mem = new
        st.facts = {t: v for t, v in st.facts.items() if not (t.mask & mask)}

    # ------------------------------------------------------------------ joins
    def key(self, st, level):
        sh = shape0 if level == 0 else shape1
        return (frozenset([(r, sh(v)) for r, v in st.mem.items()]), st.cfacts)

    def join(self, a, b, site):
        """least general generalisation of two states with equal keys; a is the accumulated one.
        returns (state, changed) with changed False when b adds nothing to a"""
        self.stats["joins"] += 1
        ph = self.phase(a)
        pairs = {}
        changed = [False]
        names = self.joinbits.setdefault(site, [0])

        def J(x, y, path):
            if x is y:
                return x
            r = pairs.get((x, y))
            if r is not None:
                return r
            r = J2(x, y, path)
            pairs[(x, y)] = r
            if r is not x:
                changed[0] = True
            return r

        def phi(x, y, path):
            n = ("phi",) + site + (ph, path)
            t = mk("sym", n)
            names[0] |= t.mask
            if t is not x:
                lx, ly = length_if(x), length_if(y)
                if lx is not None and lx is ly and lx.op == "i":
                    set_len(t, lx)
            return t

        def length_if(x):
            if x.op in ("seq", "sub", "upd") or x in LEN:
                return length(x)
            return None

        def J2(x, y, path):
            if x.op == y.op and len(x.a) == len(y.a) and x.op not in (
                    "i", "b", "tag", "sym", "stale", "lin", "ref", "slm", "boxal", "fn", "pf", "px", "uninit", "flt"):
                ok = True
                for p, q in zip(x.a, y.a):
                    if type(p) is not Term or type(q) is not Term:
                        if p != q or type(p) is not type(q):
                            ok = False
                            break
                if ok and x.op == "seq":
                    ok = all(p.op == q.op for p, q in zip(x.a, y.a))
                if ok:
                    na = []
                    for i, (p, q) in enumerate(zip(x.a, y.a)):
                        if type(p) is Term:
                            na.append(J(p, q, path + (i,)))
                        else:
                            na.append(p)
                    if x.op == "seq":
                        return seq([(s.op, s.a[0]) for s in na])
                    r = mk(x.op, *na)
                    if x in LEN and y in LEN and r not in LEN:
                        l = J(LEN[x], LEN[y], path + ("len",))
                        LEN[r] = l
                    return r
            return phi(x, y, path)

        mem = {}
        # frame locals and monitors in a deterministic order
        for r in a.mem:
            v = b.mem.get(r)
            if v is None:
                if type(r) is tuple and r[0] in ("mon", "d"):
                    changed[0] = True
                continue
            u = a.mem[r]
            mem[r] = u if u is v else J(u, v, (r,))
        facts = {}
        for t, v in a.facts.items():
            w = b.facts.get(t)
            if w is None:
                changed[0] = True
                continue
            if w == v:
                facts[t] = v
            elif type(v) is frozenset and type(w) is frozenset and v & w:
                facts[t] = v & w
                changed[0] = True
            elif type(v) is frozenset and type(w) is int and w not in v:
                facts[t] = v
            elif type(w) is frozenset and type(v) is int and v not in w:
                facts[t] = w
                changed[0] = True
            else:
                changed[0] = True
        return St(mem, facts, a.cfacts & b.cfacts), changed[0]

    def entering(self, st, site):
        """a state arrives at a join point: its symbols from an earlier visit become stale"""
        m = self.joinbits.get(site)
        if m is None or not m[0]:
            return
        mask = m[0]
        hit = 0
        for v in st.mem.values():
            hit |= v.mask & mask
        for t in st.facts:
            hit |= t.mask & mask
        if not hit:
            return
        mp = []
        x = hit
        while x:
            bt = x & -x
            mp.append(TM._symbynum[bt])
            x ^= bt
        self.stale_out(st, hit, mp)

    def destale(self, st, site):
        """at a loop head: give values of earlier rounds that are still held somewhere a name of their own,
        after the first place that holds them"""
        ph = self.phase(st)
        names = self.joinbits.setdefault(site, [0])
        memo = {}

        def D(x, path):
            if not (x.mask & STALE):
                return x
            r = memo.get(x)
            if r is None:
                r = memo[x] = D2(x, path)
            return r

        def D2(x, path):
            if x.op in ("stale", "lin", "ref", "slm", "boxal"):
                n = ("phi",) + site + (ph, path)
                t = mk("sym", n)
                names[0] |= t.mask
                if x in LEN and LEN[x].op == "i":
                    set_len(t, LEN[x])
                return t
            na = [D(y, path + (i,)) if type(y) is Term else y for i, y in enumerate(x.a)]
            if x.op == "seq":
                return seq([(q.op, q.a[0]) for q in na])
            r = mk(x.op, *na)
            if x in LEN and r not in LEN:
                LEN[r] = D(LEN[x], path + ("len",))
            return r

        for r, v in st.mem.items():
            if v.mask & STALE:
                st.mem[r] = D(v, (r,))

    # ------------------------------------------------------------------ running a function
    def eventful(self, fid):
        if self.memo_eventful is None:
            self._compute_eventful()
        return fid in self.memo_eventful

    EVENT_D = ()

    def _compute_eventful(self):
        p = self.p
        callers = {}
        ev = set()
        virt = {}
        for f in p.j["fns"]:
            if self.is_event_fn(f):
                ev.add(f["id"])
            if not f.get("bl"):
                continue
            for b in f["bl"]:
                t = b["t"]
                if t[0] == "call" and t[1].get("i") is not None:
                    callers.setdefault(t[1]["i"], set()).add(f["id"])
                if t[0] == "call" and t[1]["k"] == "ptr":
                    pass
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                        # a closure created here may be called anywhere below: count its body
                        pass
        # virtual calls: any implementation
        for f in p.j["fns"]:
            if f["k"] == "virtual":
                for (tm, sty), fid in p.impls.items():
                    if tm == f["d"]:
                        callers.setdefault(fid, set()).add(f["id"])
        work = list(ev)
        while work:
            x = work.pop()
            for c in callers.get(x, ()):
                if c not in ev:
                    ev.add(c)
                    work.append(c)
        self.memo_eventful = ev

    def is_event_fn(self, f):
        return False

    def run_fn(self, f, args, st, ctx, depth, pure):
        """-> list of (state, return value)"""
        p = self.p
        cfg = p.cfg(f)
        fr = Fr()
        fr.f, fr.ctx, fr.cfg, fr.depth, fr.pure = f, ctx, cfg, depth, pure
        fr.und, fr.visits, fr.bb, fr.steps = set(), {}, 0, 0
        fr.direct = self.next_direct and not pure and (not self.frames or self.frames[-1].direct)
        self.next_direct = False
        if fr.direct:
            # the abstract state includes every frame of the call chain, so a state seen before at a loop head of
            # this very chain needs no second exploration
            fr.und, fr.visits = self.g_und.setdefault(ctx, (set(), {}))
        self.stats["inlined"].add(f["id"])
        self.frames.append(fr)
        try:
            return self.run_body(fr, f, args, st, ctx, cfg)
        finally:
            self.frames.pop()

    def run_body(self, fr, f, args, st, ctx, cfg):
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(ctx, 1 + i)] = a
        bl = f["bl"]
        rpo = cfg.rpo
        pend = {}     # block -> {key: state}
        heap = []
        seen = self.g_seen.setdefault(ctx, {}) if fr.direct else {}     # loop head -> {key: state}
        njoin = {}
        out = {}
        outn = [0]

        def arrive(b, s, frm):
            if b not in rpo:
                return
            # drop dead locals
            li = cfg.live_in[b]
            tk = cfg.taken
            dead = [r for r in s.mem if r[0] == ctx and r[1] not in li and r[1] not in tk]
            for r in dead:
                del s.mem[r]
            if b not in cfg.joins and b not in cfg.heads:
                q = pend.get(b)
                if q is None:
                    q = pend[b] = {}
                    heapq.heappush(heap, rpo[b])
                q[object()] = s
                return
            site = (ctx, b)
            self.entering(s, site)
            if b in cfg.heads:
                fr.visits[b] = fr.visits.get(b, 0) + 1
                level = 1 if (b in fr.und and fr.visits[b] > 1) or fr.visits[b] > self.LOOP_MAX else 0
                self.destale(s, site)
                if level:
                    s.facts = {t: v for t, v in s.facts.items() if t.op != "lt"}
                k = (level, self.key(s, level))
                S = seen.setdefault(b, {})
                old = S.get(k)
                if old is not None:
                    s, ch = self.join(old, s, site)
                    if not ch:
                        return
                    s2 = s
                else:
                    s2 = s
                S[k] = s2
                q = pend.get(b)
                if q is None:
                    q = pend[b] = {}
                    heapq.heappush(heap, rpo[b])
                q[k] = s2
                return
            level = 0 if njoin.get(b, 0) < self.JOIN_MAX else 1
            k = (level, self.key(s, level))
            q = pend.get(b)
            if q is None:
                q = pend[b] = {}
                heapq.heappush(heap, rpo[b])
            old = q.get(k)
            if old is not None:
                s, _ = self.join(old, s, site)
            else:
                njoin[b] = njoin.get(b, 0) + 1
            q[k] = s

        def ret(s):
            rv = s.mem.get((ctx, 0), UNINIT)
            s.mem = {r: v for r, v in s.mem.items() if r[0] != ctx}
            s.mem[("ret",)] = rv
            site = (ctx, "ret")
            self.entering(s, site)
            level = 0 if len(out) < self.JOIN_MAX else 1
            k = (level, self.key(s, level))
            old = out.get(k)
            if old is not None:
                s, _ = self.join(old, s, site)
            out[k] = s

        arrive(0, st, None)
        while heap:
            b = order_b = cfg.order[heapq.heappop(heap)]
            q = pend.pop(b, None)
            if not q:
                continue
            for s in list(q.values()):
                s = s.copy()
                # straight-line chains without joins are executed in place
                self.block(fr, b, s, arrive, ret)
        res = []
        for s in out.values():
            rv = s.mem.pop(("ret",))
            res.append((s, rv))
        return res

    def block(self, fr, b, st, arrive, ret):
        f = fr.f
        bl = f["bl"]
        fr.bb = b
        self.stats["blocks"] += 1
        if self.pure_stack:
            self.pure_stack[-1][0] -= 1
            if self.pure_stack[-1][0] < 0:
                raise GiveUp("budget")
        if self.stats["blocks"] > self.max_blocks:
            raise Budget("block budget exhausted")
        if self.deadline and self.stats["blocks"] % 2000 == 0 and time.time() > self.deadline:
            raise Budget("time limit")
        B_ = bl[b]
        for s in B_["s"]:
            k = s[0]
            if k == "=":
                pl = s[1]
                if len(pl) == 1:
                    if s[2][0] == "use" and "cp" in s[2][1] and self.p.is_box(f["lt"][pl[0]]):
                        cur = self.place(st, fr, s[2][1]["cp"])
                        if cur[0] == "L" and cur[4] is None:
                            st.mem[(fr.ctx, pl[0])] = mk("boxal", cur[1], *cur[2])
                            continue
                    st.mem[(fr.ctx, pl[0])] = self.rvalue(st, fr, s[2], f["lt"][pl[0]])
                else:
                    cur = self.place(st, fr, pl)
                    v = self.rvalue(st, fr, s[2], cur[3])
                    self.write(st, cur, v)
            elif k == "sx":
                st.mem.pop((fr.ctx, s[1]), None)
            elif k == "sl":
                st.mem.pop((fr.ctx, s[1]), None)
            elif k == "sd":
                cur = self.place(st, fr, s[1])
                self.write(st, cur, mk("agg", cur[3], s[2], *[UNINIT] * len(self.p.T[cur[3]]["v"][s[2]]["f"])))
        t = B_["t"]
        k = t[0]
        if k == "goto":
            return arrive(t[1], st, b)
        if k == "ret":
            return ret(st)
        if k == "drop":
            return arrive(t[2], st, b)
        if k == "assert":
            return arrive(t[4], st, b)
        if k == "sw":
            return self.switch(fr, b, st, t, arrive)
        if k == "call":
            return self.call(fr, b, st, t, arrive)
        return

    def switch(self, fr, b, st, t, arrive):
        v = self.operand(st, fr, t[1])
        ty = t[4] if len(t) > 4 else None
        bits = self.p.int_info(ty)[0] if ty is not None else 128
        M = (1 << bits) - 1 if bits > 1 else 255
        c = self.lookup(st, v)
        if c is not None:
            for val, tgt in t[2]:
                if (val & M) == (c & M):
                    return arrive(tgt, st, b)
            return arrive(t[3], st, b)
        self.mark_und(fr, b)
        excl = []
        isbool = ty is not None and self.p.T[ty]["k"] == "bool"
        f = st.facts.get(v)
        neg = f if type(f) is frozenset else frozenset()
        for val, tgt in t[2]:
            if val in neg or tgt not in fr.cfg.rpo:
                excl.append(val)
                continue
            if self.is_unreach(fr, tgt):
                excl.append(val)
                continue
            s = st.copy()
            if isbool:
                ok = self.assume(s, v, val, fr)
            else:
                sv = val
                ok = self.assume(s, v, sv, fr)
            if ok:
                arrive(tgt, s, b)
            excl.append(val)
        if self.is_unreach(fr, t[3]):
            return
        s = st
        if isbool and len(t[2]) == 1:
            if self.assume(s, v, 1 - t[2][0][0], fr):
                arrive(t[3], s, b)
            return
        # enum discriminants: a single remaining variant is known
        if v.op == "discr":
            rest = self.rest_variants(fr, b, t, excl)
            if rest is not None and not rest:
                return
            if rest is not None and len(rest) == 1:
                if self.assume(s, v, rest[0], fr):
                    arrive(t[3], s, b)
                return
        if not (v.mask & STALE):
            self.setfact(s, v, neg | frozenset(excl))
        arrive(t[3], s, b)

    def rest_variants(self, fr, b, t, excl):
        """variants not listed in a switch over a discriminant, when the enum type is known"""
        o = t[1].get("cp") or t[1].get("mv")
        if not o:
            return None
        for s in fr.f["bl"][b]["s"]:
            if s[0] == "=" and s[1] == [o[0]] and s[2][0] == "discr":
                ty = self.place_ty(fr, s[2][1])
                T = self.p.T[ty]
                if T["k"] == "adt" and T["a"] == "enum":
                    return [x["d"] for x in T["v"] if x["d"] not in excl]
        return None

    def place_ty(self, fr, pl):
        return self.opty(fr, {"cp": pl})

    def is_unreach(self, fr, b):
        bl = fr.f["bl"][b]
        return bl["t"][0] == "unreachable" and not bl["s"]

    def mark_und(self, fr, b):
        """an undetermined branch decides whether the innermost loop goes on: its trip count is unknown"""
        cfg = fr.cfg
        h = cfg.inner.get(b)
        if h is None or h in fr.und:
            return
        L = cfg.loop[h]
        # first branch after the head?
        x = h
        n = 0
        while n < 40:
            n += 1
            if x == b:
                if any(s not in L for s in cfg.succ[b]):
                    self.undetermined(fr, h)
                return
            ss = cfg.succ[x]
            if len(ss) != 1:
                return
            x = ss[0]

    def mark_iter(self):
        """the number of steps of an iterator is unknown: so is the trip count of the loop that drives it"""
        for g in reversed(self.frames):
            h = g.cfg.inner.get(g.bb)
            if h is not None:
                if h not in g.und:
                    self.undetermined(g, h)
                return

    def mark_io(self):
        """loops that wait for the peer run for an unknown number of rounds"""
        for g in self.frames:
            h = g.cfg.inner.get(g.bb)
            while h is not None and h not in g.und:
                g.und.add(h)
                # enclosing loops
                hs = [x for x, L in g.cfg.loop.items() if x != h and h in L and x not in g.und]
                h = min(hs, key=lambda x: len(g.cfg.loop[x])) if hs else None

    def undetermined(self, fr, h):
        fr.und.add(h)
        if fr.pure:
            raise GiveUp("loop")

    # ------------------------------------------------------------------ calls
    def call(self, fr, b, st, t, arrive):
        callee, args, dest, tgt = t[1], t[2], t[3], t[4]
        self.fnval = self.operand_fn(st, fr, callee) if callee["k"] == "ptr" else None
        vals = [self.operand(st, fr, o) for o in args]
        if tgt is None and callee.get("i") is None and callee["k"] != "ptr":
            return
        self.stats["calls"] += 1
        # drop caller locals that are dead across the call
        cfg = fr.cfg
        lo = cfg.live_out[b]
        tk = cfg.taken
        dl = dest[0] if len(dest) > 1 else None
        idxl = {e[1] for e in dest[1:] if type(e) is list and e[0] == "i"}
        dead = [r for r in st.mem if r[0] == fr.ctx and r[1] not in lo and r[1] not in tk and r[1] != dl and r[1] not in idxl]
        for r in dead:
            del st.mem[r]
        ty = self.place_ty(fr, dest)
        self.from_call = True
        res = self.dispatch(fr, b, st, callee, vals, ty, [self.opty(fr, o) for o in args])
        for s, rv in res:
            fr.bb = b
            if tgt is None:
                continue
            if self.call_mons and callee.get("i") is not None:
                for mo in self.call_mons:
                    mo.on_called(self, s, fr, self.p.F[callee["i"]], vals, rv)
            if rv.op not in ("agg", "seq", "i", "b", "ref", "vref"):
                self.note_len(rv, ty)
            if len(dest) == 1:
                s.mem[(fr.ctx, dest[0])] = rv
            else:
                self.write(s, self.place(s, fr, dest), rv)
            arrive(tgt, s, b)

    def dispatch(self, fr, b, st, callee, vals, rty, atys):
        p = self.p
        k = callee["k"]
        i = callee.get("i")
        direct, self.from_call = self.from_call, False
        f = p.F.get(i) if i is not None else None
        if k == "ptr":
            return self.call_value(fr, b, st, self.fnval if self.fnval is not None else UNINIT, vals, rty, atys)
        if f is None:
            return [(st, self.opaque(fr, st, callee.get("d", "?"), vals, atys))]
        if f["k"] == "virtual" or k == "virtual":
            return self.virtual(fr, b, st, f, vals, rty, atys)
        h = self.handler(f)
        if h:
            r = h(self, fr, b, st, f, vals, rty, atys)
            if r is not None:
                return r
        if f["d"].endswith("}") and len(vals) == 2 and vals[1].op == "agg" and self.p.T[vals[1].a[0]]["k"] == "tuple":
            vals = [vals[0]] + list(vals[1].a[2:])  # "rust-call": closure bodies take their arguments unpacked
            atys = [atys[0]] + list(self.p.T[atys[1]]["f"]) if len(atys) > 1 else atys
        if f["k"] == "shim" and not f.get("bl"):
            return self.shim(fr, b, st, f, vals, rty, atys)
        self.next_direct = direct
        try:
            return self.enter(fr, b, st, f, vals, rty, atys)
        finally:
            self.next_direct = False

    def operand_fn(self, st, fr, callee):
        o = callee.get("op")
        return self.operand(st, fr, o) if o else UNINIT

    def shim(self, fr, b, st, f, vals, rty, atys):
        return [(st, self.opaque(fr, st, f["n"], vals, atys))]

    def trait_handler(self, f):
        return None

    def handler(self, f):
        """model of a function: project traits and event anchors first, then the standard library"""
        h = f.get("_h", 0)
        if h == 0:
            h = self.trait_handler(f)
            if h is None and not f["local"]:
                h = self.intr.get(stdkey(f["d"]))
                if h is None and not std_inlinable(f["d"]):
                    h = std_opaque
            f["_h"] = h
        return h

    REC = 0     # how deep a function may recurse into itself before it is left uninterpreted (0: default)

    def enter(self, fr, b, st, f, vals, rty, atys):
        """interprocedural step: inline f, or apply it as an uninterpreted function"""
        if not f.get("bl"):
            return [(st, self.opaque(fr, st, f["d"], vals, atys))]
        fid = f["id"]
        pure = not self.eventful(fid)
        if pure and fid in self.opaque_fns and not self.has_mut(atys, vals):
            return [(st, self.opaque(fr, st, f["n"], vals, atys))]
        # recursion
        c = fr.ctx
        n = 0
        d = 0
        while c in self.ctx_info:
            if self.ctx_info[c][2] == fid:
                n += 1
            c = self.ctx_info[c][0]
            d += 1
        if n >= (self.REC or (1 if pure else 2)) or d > (60 if not self.REC else 400):
            if self.pure_stack and pure:
                raise GiveUp("recursion")
            return [(st, self.opaque(fr, st, f["n"], vals, atys))]
        ctx = self.ctx(fr.ctx, b, fid)
        if pure and not self.has_mut(atys, vals):
            self.pure_stack.append([4000])
            try:
                return self.run_fn(f, vals, st, ctx, fr.depth + 1, True)
            except GiveUp:
                self.opaque_fns.add(fid)
                self.stats["opaque"][f["d"]] = self.stats["opaque"].get(f["d"], 0) + 1
                return [(st, self.opaque(fr, st, f["n"], vals, atys))]
            finally:
                self.pure_stack.pop()
        saved = self.pure_stack
        if not pure:
            self.pure_stack = []
        try:
            return self.run_fn(f, vals, st, ctx, fr.depth + 1, False)
        finally:
            self.pure_stack = saved

    def has_mut(self, atys, vals):
        return any(self.contains_mut(v) for v in vals)

    def contains_mut(self, v, d=0):
        if v.op in ("ref", "slm", "sitm"):
            return True
        if d < 5 and v.op in ("agg", "vref"):
            return any(type(x) is Term and self.contains_mut(x, d + 1) for x in v.a)
        return False

    def opaque(self, fr, st, name, vals, atys):
        """uninterpreted application; anything reachable through &mut arguments becomes unknown"""
        dv = [self.deep(st, v) for v in vals]
        for k, v in enumerate(vals):
            self.havoc(fr, st, name, dv, v, k)
        return mk("app", name, *dv)

    def havoc(self, fr, st, name, dv, v, k, d=0):
        if v.op in ("ref", "slm"):
            self.stats["havoc"][name] = self.stats["havoc"].get(name, 0) + 1
            old = self.load(st, v)
            new = mk("app", name + "#out%d" % k, *dv)
            if v.op == "slm":
                set_len(new, sub(v.a[1], v.a[0]))
            elif old.op in ("seq", "sub", "upd") or old in LEN:
                pass
            self.store(st, v, new)
        elif v.op == "agg" and d < 4:
            for x in v.a[2:]:
                if type(x) is Term:
                    self.havoc(fr, st, name, dv, x, k, d + 1)

    def call_value(self, fr, b, st, fv, vals, rty, atys):
        """call of a function value (fn pointer / FnDef / closure)"""
        fv0 = self.load_all(st, fv)
        if fv0.op == "fn":
            f = self.p.F[fv0.a[0]]
            return self.dispatch(fr, b, st, {"k": f["k"], "i": f["id"]}, vals, rty, atys)
        if fv0.op == "agg":
            T = self.p.T[fv0.a[0]]
            if T["k"] == "closure":
                # body is the instance with the closure's def path
                for f in self.p.by_d.get(T["d"], []):
                    if f.get("bl"):
                        selfty = f["lt"][1]
                        a0 = fv0
                        if self.p.T[selfty]["k"] == "ref":
                            a0 = fv if fv.op in ("ref", "vref") else mk("vref", fv0)
                        return self.enter(fr, b, st, f, [a0] + list(vals), rty, atys)
            if T["k"] == "fndef":
                for f in self.p.by_d.get(T["d"], []):
                    if f.get("args") == T.get("args") or len(self.p.by_d[T["d"]]) == 1:
                        return self.dispatch(fr, b, st, {"k": f["k"], "i": f["id"]}, vals, rty, atys)
        r = self.dyncall(fr, b, st, fv0, vals, rty, atys)
        return r

    def dyncall(self, fr, b, st, fv, vals, rty, atys):
        return [(st, self.opaque(fr, st, "dyncall", [fv] + list(vals), atys))]

    def virtual(self, fr, b, st, f, vals, rty, atys):
        recv = self.load_all(st, vals[0])
        h = self.trait_handler(f)
        if h:
            r = h(self, fr, b, st, f, vals, rty, atys)
            if r is not None:
                return r
        if recv.op in ("agg", "ths"):
            fid = self.p.impls.get((f["d"], recv.a[0]))
            if fid is not None:
                g = self.p.F[fid]
                return self.dispatch(fr, b, st, {"k": "item", "i": fid}, vals, rty, atys)
            if self.p.T[recv.a[0]]["k"] == "closure":
                return self.call_value(fr, b, st, vals[0], self.untuple(st, vals[1:]), rty, atys)
        if f["d"].startswith("std::ops::Fn") or "::ops::function::Fn" in f["d"] or f["d"].split("::")[-1] in ("call", "call_mut", "call_once"):
            return self.dyncall(fr, b, st, recv, self.untuple(st, vals[1:]), rty, atys)
        # unknown receiver: default body or opaque
        return [(st, self.opaque(fr, st, f["d"], vals, atys))]

    def untuple(self, st, vals):
        if len(vals) == 1 and vals[0].op == "agg" and self.p.T[vals[0].a[0]]["k"] == "tuple":
            return list(vals[0].a[2:])
        return list(vals)
