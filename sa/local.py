"""Abstract interpretation of single functions from a symbolic (or partly concrete) call."""
import std_model
from terms import *
from engine import *
from tls_model import TlsEngine


def last(d):
    return d.split("::")[-1]


def engine(prog, monitors=(), **kw):
    e = TlsEngine(prog, list(monitors), **kw)
    e.max_blocks = 400000
    return e


def plain(prog, monitors=()):
    """an engine without the TLS model: every local function is interpreted from its source"""
    e = Engine(prog, list(monitors), intrinsics=std_model.M)
    e.max_blocks = 400000
    return e


def call(e, f, args, st=None):
    """-> [(state, value)]"""
    return e.run_fn(f, args, st or St(), e.ctx(0, 0, f["id"]), 0, False)


def arg(e, f, i, st, name=None):
    """a fresh unknown for parameter i: shared references point to it, mutable ones to a memory cell"""
    t = e.p.T[f["lt"][1 + i]]
    s = mk("sym", ("arg", name or i))
    if t["k"] == "ref":
        if t.get("mut"):
            st.mem[("arg", name or i)] = s
            return mk("ref", ("arg", name or i))
        return mk("vref", s)
    return s


def enum_named(prog, *names):
    out = {}
    for i, t in enumerate(prog.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "enum" and last(t["d"]) in names:
            out[i] = last(t["d"])
    return out


def loc(prog, f):
    for b in f["bl"]:
        l = b["l"]
        n = prog.j["files"][l[0]] if isinstance(l[0], int) else l[0]
        if "/registry/" not in n and "/rustlib/" not in n:
            break
    return "%s (%s:%s)" % (f["d"], n, l[1])


def is_ok(v):
    """the Ok/Some payload, False for Err/None, None if unknown"""
    return None


def unwrap(prog, v, e=None):
    """('ok', payload) / ('no', error) / ('?', v) of a Result or Option aggregate; anything else is ('val', v)"""
    if v.op == "agg":
        d = prog.T[v.a[0]].get("d", "")
        n = d.split("::")[-1]
        if n == "Result":
            return ("ok" if v.a[1] == 0 else "no"), (v.a[2] if len(v.a) > 2 else None)
        if n == "Option":
            return ("ok" if v.a[1] == 1 else "no"), (v.a[2] if len(v.a) > 2 else None)
        return "val", v
    if v.op in ("i", "b"):
        return "val", v
    return "?", v


def facts_of(st, t):
    """what a path knows about t: an int, a frozenset of excluded values, or None"""
    if t.op == "i":
        return t.a[0]
    return st.facts.get(t)
