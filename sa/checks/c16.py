"""Abstract interpretation of the receive path over a stream of records with known headers and unknown payloads, for
every way of cutting the stream at and around the header and record boundaries: the bytes handed on as a record must be
the next header and payload terms of the stream, and the bytes kept must be exactly the ones behind them."""
import itertools
from local import *
from lanes import *
import tls_model
from run import parallel

TECHNIQUE = "abstract interpretation of MIR with symbolic stream slices (value numbering of received bytes)"
RULE = ("for every enumerated cut of the byte stream into reads, record k as seen by the record layer = stream[p_k .. p_k + 5 + len_k] "
        "with p_(k+1) = p_k + 5 + len_k; application data read with any buffer sizes = the records' plaintexts in order; "
        "the handshake loops end the same way for every cut")
ASSUME = ["payload bytes are unknown; header bytes are known", "cuts are enumerated around the header, record and internal buffer boundaries"]


class Net:
    """the receiving side of a socket: stream = records with known headers and opaque payloads, delivered in chunks"""
    def __init__(self, recs, cuts):
        parts = []
        self.bounds = []
        pos = 0
        for i, (typ, body) in enumerate(recs):
            n = body if type(body) is int else len(body)
            parts.append(seq_of([I(x) for x in (typ, 3, 3, n >> 8, n & 255)]))
            if type(body) is int:
                if n:
                    parts.append(arr("payload%d.%d" % (i, n), n))
            else:
                parts.append(seq_of([I(x) for x in body]))
            self.bounds.append((pos, pos + 5 + n))
            pos += 5 + n
        self.total = pos
        s = parts[0]
        for q in parts[1:]:
            s = concat(s, q)
        self.stream = s
        self.cuts = [c for c in cuts if 0 < c < pos] + [pos]

    def rec(self, i):
        a, b = self.bounds[i]
        return subseq(self.stream, I(a), I(b))


POS = ("net-pos",)


def deliver(eng, st, net, cap):
    """the next bytes of the stream, at most cap, never across a cut: (bytes, number)"""
    pos = st.mem.get(POS, I(0)).a[0]
    if pos >= net.total:
        return None, 0
    end = next(c for c in sorted(net.cuts) if c > pos)
    n = min(end - pos, cap)
    st.mem[POS] = I(pos + n)
    return subseq(net.stream, I(pos), I(pos + n)), n


def target(eng, st, v):
    r = tls_model.mref(eng, st, v)
    if r.op == "ref":
        r = mk("slm", I(0), length(eng.load(st, r)), *r.a)
    L = sub(r.a[1], r.a[0]) if r.op == "slm" else length(tls_model.cont(eng, st, r))
    old = tls_model.cont(eng, st, r)
    return r, (L.a[0] if L.op == "i" else None), old


def reader(net):
    def h(eng, fr, b, st, f, vals, rty, atys):
        if f["d"].endswith("read_to_end"):
            return None
        r, cap, old = target(eng, st, vals[1])
        if cap is None:
            raise Unknown("read into a buffer of unknown size")
        if f["d"].endswith("read_exact"):
            got = seq_of([])
            n = 0
            while n < cap:
                d, k = deliver(eng, st, net, cap - n)
                if not k:
                    return [(st, tls_model.err(rty, tls_model.io_err()))]
                got = concat(got, d)
                n += k
            eng.store(st, r, got)
            return [(st, tls_model.ok(rty, tls_model.unit(eng)))]
        d, n = deliver(eng, st, net, cap)
        if not n:
            return [(st, tls_model.ok(rty, I(0)))]
        eng.store(st, r, concat(d, subseq(old, I(n), I(cap))))
        return [(st, tls_model.ok(rty, I(n)))]
    return h


class Unknown(Exception):
    pass


READS = ("std::io::Read>::read", "std::io::Read>::read_exact", "std::io::Read::read", "std::io::Read::read_exact", "default_read_exact")


class NetMixin:
    net = None

    def handler(self, f):
        if not f["local"] and "TcpStream" in f["d"] and f["d"].endswith(("::read", "::read_exact")):
            return reader(self.net)
        return super().handler(f)


class NetLane(NetMixin, LaneEngine):
    pass


class NetTls(NetMixin, NonceTls):
    pass


def struct(p, name):
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct" and last(t["d"]) == name:
            return i, t
    return None, None


def item(p, suffix, argc=None):
    r = [f for f in p.j["fns"] if f.get("bl") and f["local"] and f["k"] == "item" and f["d"].endswith(suffix) and (argc is None or f["argc"] == argc)]
    return r[0] if r else None


def cuts_for(net, thorough):
    """ways of cutting the stream: whole, record by record, bytewise at the front, and around every boundary"""
    edge = set()
    for a, b in net.bounds:
        edge |= {a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, b - 1, b, b + 1, (a + 5 + b) // 2}
    edge |= {4095, 4096, 4097}
    edge = sorted(x for x in edge if 0 < x < net.total)
    yield []
    yield [b for a, b in net.bounds]
    yield edge
    yield list(range(1, min(net.total, 40)))
    for x in edge:
        yield [x]
    pairs = list(itertools.combinations(edge, 2))
    if not thorough:
        pairs = pairs[::7]
    for q in pairs:
        yield list(q)


STREAMS = [
    [(23, 1), (23, 2), (23, 3)],
    [(22, 0), (22, 7), (23, 0), (23, 9)],
    [(23, 300), (23, 30)],
    [(23, 3), (22, 0)],
    [(23, 256), (23, 513), (23, 1)],
    [(23, 5000), (23, 17), (23, 4091)],
    [(23, 16640), (23, 20)],
]


def merge(e, rs):
    """outcomes that differ in nothing but what the path knows about unrelated values (the log level)"""
    out = {}
    for st, v in rs:
        out.setdefault((e.load_all(st, v), e.load_all(st, mk("ref", ("s",))), st.mem.get(POS)), (st, v))
    return list(out.values())


def newstream(e, p, st):
    mkf = item(p, "TlsStream::new", 1)
    (st, s), = call(e, mkf, [mk("sym", ("sock",))], st)
    st.mem[("s",)] = s
    return st


def frames(ctx, recs, cutlist):
    p = ctx.prog
    rd = item(p, "TlsStream::read_record", 1)
    for cuts in cutlist:
        net = Net(recs, cuts)
        e = NetLane(p)
        e.net = net
        st = newstream(e, p, St())
        for i in range(len(recs)):
            rs = call(e, rd, [mk("ref", ("s",))], st)
            rs = merge(e, rs)
            out = []
            for s2, v in rs:
                k, v = unwrap(p, v)
                v = e.load_all(s2, v) if v is not None else None
                out.append((k, v))
            ctx.n("records framed")
            right = [k == "ok" and length(v).op == "i" and same(v, net.rec(i)) for k, v in out]
            if len(rs) == 1 and right[0]:
                st = rs[0][0]
                continue
            if any(right):
                ctx.incomplete.append("%s: %d outcomes" % (loc(p, rd), len(rs)))
                return
            if all(k == "?" or (k == "ok" and undetermined(v)) for k, v in out):
                ctx.incomplete.append("%s: value not determined: %s" % (loc(p, rd), show(out[0][1])[:200]))
                return
            k, v = next((k, v) for k, v in out if not (k == "?" or (k == "ok" and undetermined(v))))
            ctx.v("frame/%s" % ("error" if k == "no" else "bytes"),
                  "%s: records of %s payload bytes cut at %s: record %d is returned as %s, the stream holds %s" %
                  (loc(p, rd), [r[1] for r in recs], cuts, i, "an error" if k == "no" else show(v)[:160], show(net.rec(i))[:160]))
            return
        rs = call(e, rd, [mk("ref", ("s",))], st)
        if any(unwrap(p, v)[0] == "ok" for _, v in rs):
            ctx.v("frame/extra", "%s: a record is returned behind the end of the stream (records of %s bytes cut at %s)" % (loc(p, rd), [r[1] for r in recs], cuts))
            return
        ctx.n("cuts analysed")
    ctx.sample("records of %s payload bytes: %d cuts, every record is its header and payload" % ([r[1] for r in recs], len(cutlist)))


def runs(t):
    """a byte string as maximal runs of one source: (None, constant) and (base, from, to)"""
    out = []

    def put(base, lo, hi):
        if hi <= lo:
            return
        if out and out[-1][0] is base and out[-1][2] == lo:
            out[-1] = (base, out[-1][1], hi)
        else:
            out.append((base, lo, hi))

    def one(x):
        if x.op == "elem" and x.a[1].op == "i":
            go(x.a[0], x.a[1].a[0], x.a[1].a[0] + 1)
        else:
            out.append((None, x, x))

    def go(t, lo, hi):
        """the part [lo, hi) of t"""
        if t.op == "sub" and t.a[1].op == "i":
            return go(t.a[0], lo + t.a[1].a[0], hi + t.a[1].a[0])
        if t.op == "upd":
            # single elements written over a base
            at = {}
            while t.op == "upd":
                if t.a[1].op != "i":
                    raise Unknown("written at an unknown place")
                at.setdefault(t.a[1].a[0], t.a[2])
                t = t.a[0]
            i = lo
            while i < hi:
                if i in at:
                    one(at[i])
                    i += 1
                else:
                    j = i
                    while j < hi and j not in at:
                        j += 1
                    go(t, i, j)
                    i = j
            return
        if t.op != "seq":
            return put(t, lo, hi)
        pos = 0
        for k, x in segs_of(t):
            n = I(1) if k == "E" else length(x)
            if n.op != "i":
                raise Unknown("a part of unknown length: %s" % show(x)[:100])
            a, b = max(lo - pos, 0), min(hi - pos, n.a[0])
            pos += n.a[0]
            if a >= b:
                continue
            if k != "E":
                go(x, a, b)
            else:
                one(x)
    n = length(t)
    if n.op != "i":
        raise Unknown("bytes of unknown length: %s" % show(t)[:100])
    go(t, 0, n.a[0])
    return out


def same(a, b):
    return a is b or runs(a) == runs(b)


def canon(t):
    return [mk("run", *([x] if b is None else [b, I(x), I(y)])) for b, x, y in runs(t)]


def decrypter(p):
    """RecordPayloadProtection::decrypt with an uninterpreted cipher: the plaintext of a record is a term of its fragment"""
    def h(eng, fr, b, st, f, vals, rty, atys):
        rec = eng.load_all(st, vals[1])
        # the fragment: the field that is an enum around (a reference to) the bytes
        body = rec.a[-1]
        while body.op == "agg":
            body = body.a[-1]
        body = eng.load_all(st, body)
        n = length(body)
        if n.op != "i":
            raise Unknown("fragment of unknown length: %s" % show(body)[:100])
        pt = mk("app", "pt", *canon(body))
        k = max(0, n.a[0] - 17)
        set_len(pt, I(k))
        R = p.T[rty]
        tup = R["args"][0]
        rt = p.T[p.T[tup]["e"][0]] if "e" in p.T[tup] else None
        return [(st, tls_model.ok(rty, mk("agg", tup, 0, APP(p), pt if k else seq_of([]))))]
    return h


def APP(p):
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "enum" and last(t["d"]) == "RecordType":
            for k, v in enumerate(t["v"]):
                if v["n"] == "ApplicationData":
                    return mk("agg", i, k)
    raise Unknown("RecordType::ApplicationData not found")


def reads(ctx, recs, cutlist, bufs):
    p = ctx.prog
    rd, sp = item(p, "TlsStream::tls_read", 2), item(p, "TlsStream::set_protection", 2)
    if not rd or not sp:
        ctx.incomplete.append("TlsStream::tls_read not found")
        return
    for cuts in cutlist:
        net = Net(recs, cuts)
        e = NetLane(p, {"::decrypt": decrypter(p)})
        e.net = net
        st = newstream(e, p, St())
        oty = sp["lt"][2]
        (st, _), = call(e, sp, [mk("ref", ("s",)), mk("agg", oty, 1, mk("sym", ("arg", "protection")))], st)
        want = seq_of([])
        for i, r in enumerate(recs):
            a, b = net.bounds[i]
            k = max(0, b - a - 5 - 17)
            if k:
                want = concat(want, set_len(mk("app", "pt", *canon(subseq(net.stream, I(a + 5), I(b)))), I(k)))
        total = length(want).a[0]
        pos = 0
        seq = itertools.cycle(bufs)
        steps = 0
        while pos < total and steps < 400:
            steps += 1
            bl = next(seq)
            st.mem[("b",)] = arr("buf%d" % bl, bl)
            rs = call(e, rd, [mk("ref", ("s",)), mk("ref", ("b",))], st)
            rs = merge(e, rs)
            if len(rs) != 1:
                ctx.incomplete.append("%s: %d outcomes" % (loc(p, rd), len(rs)))
                return
            st, v = rs[0]
            k, v = unwrap(p, v)
            if k == "?" or (k == "ok" and v.op != "i"):
                ctx.incomplete.append("%s: value not determined: %s" % (loc(p, rd), show(v)[:200]))
                return
            ctx.n("application reads analysed")
            what = "records of %s bytes cut at %s, read with buffers of %s bytes, after %d bytes" % ([r[1] for r in recs], cuts, bufs, pos)
            if k == "no":
                ctx.v("read/error", "%s: %s: an error (%s) instead of the next bytes" % (loc(p, rd), what, show(v)[:80]))
                return
            n = v.a[0]
            got = subseq(e.load(st, mk("ref", ("b",))), I(0), I(n))
            if n > bl or n == 0 or pos + n > total:
                ctx.v("read/count", "%s: %s: %d bytes reported for a buffer of %d" % (loc(p, rd), what, n, bl))
                return
            if not same(got, subseq(want, I(pos), I(pos + n))):
                if undetermined(got):
                    ctx.incomplete.append("%s: bytes not determined: %s" % (loc(p, rd), show(got)[:200]))
                    return
                ctx.v("read/bytes", "%s: %s: the caller gets %s instead of %s" % (loc(p, rd), what, show(got)[:160], show(subseq(want, I(pos), I(pos + n)))[:160]))
                return
            pos += n
        ctx.n("read schedules analysed")
    ctx.sample("records of %s bytes read with buffers of %s bytes: every plaintext byte once, in order" % ([r[1] for r in recs], bufs))


def work(ctx, kind, *a):
    try:
        {"frames": frames, "reads": reads, "loop": loop}[kind](ctx, *a)
    except Unknown as x:
        ctx.incomplete.append("%s: %s" % (kind, x))


def loops(p):
    """the methods that drive a handshake: (function, struct type, stream field, state field, states)"""
    ts, _ = struct(p, "TlsStream")
    for f in p.j["fns"]:
        if not (f.get("bl") and f["local"] and f["k"] == "item" and f["argc"] == 1 and f["d"].endswith("::do_handshake")):
            continue
        t = p.T[f["lt"][1]]
        s = t.get("to", t.get("e"))
        s = s[0] if type(s) is list else s
        if t["k"] != "ref" or p.T[s]["k"] != "adt":
            continue
        fl = p.T[s]["v"][0]["f"]
        sf = [i for i, (n, ty) in enumerate(fl) if p.T[ty]["k"] == "ref" and p.T[ty].get("to", p.T[ty].get("e")) in (ts, [ts])]
        ef = [i for i, (n, ty) in enumerate(fl) if n == "state" and p.T[ty]["k"] == "adt" and p.T[ty]["a"] == "enum"]
        if len(sf) == 1 and len(ef) == 1:
            yield f, s, sf[0], ef[0], [(k, v["n"]) for k, v in enumerate(p.T[fl[ef[0]][1]]["v"]) if not v["f"] and v["n"] != "Ready"]


def loop(ctx, fid, s, sf, ef, k, name):
    p = ctx.prog
    f = next(x for x in p.j["fns"] if x["id"] == fid)
    fl = p.T[s]["v"][0]["f"]
    for recs in ([(21, [2, 40])], [(20, [1]), (21, [2, 80]), (21, [2, 40])], [(21, [1, 0]), (21, [2, 40])]):
        ref = None
        net = Net(recs, [])
        cl = [[], [b for a, b in net.bounds], list(range(1, net.total))] + [[x] for x in range(1, net.total)]
        for cuts in cl:
            net = Net(recs, cuts)
            e = NetTls(p, [], logs=False)
            e.net = net
            st = newstream(e, p, St())
            vals = []
            for i, (n, ty) in enumerate(fl):
                v = mk("sym", ("arg", n))
                if i == sf:
                    v = mk("ref", ("s",))
                elif i == ef:
                    v = mk("agg", ty, k)
                elif p.T[ty]["k"] == "ref" and p.T[ty].get("mut"):
                    st.mem[("arg", n)] = v
                    v = mk("ref", ("arg", n))
                vals.append(v)
            st.mem[("hs",)] = mk("agg", s, 0, *vals)
            rs = e.run_fn(f, [mk("ref", ("hs",))], st, e.ctx(0, 0, f["id"]), 0, False)
            got = set()
            for st2, v in rs:
                if st2.tag("iofail"):
                    continue
                got.add(show(e.load_all(st2, v)))
            if not got:
                ctx.incomplete.append("%s in %s: no outcome" % (loc(p, f), name))
                return
            ctx.n("handshake loop runs analysed")
            if ref is None:
                ref = got
            elif got != ref:
                ctx.v("loop/%s" % ("client" if "client" in f["d"].lower() else "server"),
                      "%s in state %s: records %s cut at %s end in %s, delivered whole in %s" % (loc(p, f), name, recs, cuts, sorted(got)[:3], sorted(ref)[:3]))
                return
        ctx.sample("%s in state %s: %s for every cut of %s" % (last(f["d"]), name, sorted(ref)[:3], recs))


def run(ctx):
    p = ctx.prog
    if not (item(p, "TlsStream::new", 1) and item(p, "TlsStream::read_record", 1)):
        ctx.incomplete.append("TlsStream::new/read_record not found")
        return
    th = ctx.tier == "thorough"
    jobs = []
    for recs in STREAMS:
        cl = list(cuts_for(Net(recs, []), th))
        for i in range(0, len(cl), 40):
            jobs.append(("frames", recs, cl[i:i + 40]))
    for recs in ([(23, 17 + 5), (23, 17 + 1), (23, 17), (23, 17 + 12)], [(23, 17 + 300), (23, 17 + 40)], [(23, 17 + 4200), (23, 18)], [(23, 17 + 16384), (23, 17 + 8192 + 5)]):
        net = Net(recs, [])
        cl = [[], [b for a, b in net.bounds], [3], [net.bounds[0][1] + 2], [net.bounds[-1][0] + 7], list(range(1, 30))]
        for bufs in ([1 << 15], [7], [3, 1, 64], [4096], [100, 5000]) if recs[0][1] < 4000 else ([1 << 15], [4096], [4200, 1]):
            if recs[0][1] > 100 and bufs == [3, 1, 64]:
                bufs = [30, 10, 64]
            jobs.append(("reads", recs, cl, bufs))
    n = 0
    for f, st, sf, ef, states in loops(p):
        n += 1
        jobs += [("loop", f["id"], st, sf, ef, k, name) for k, name in states]
    ctx.n("handshake loops", n)
    ctx.floor("handshake loops", 2)
    parallel(ctx, work, jobs)
