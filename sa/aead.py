"""The AEAD implementations as terms: the MIR of every Cipher impl evaluated in the byte-lane domain for given lengths,
and the terms GCM (SP 800-38D) and ChaCha20-Poly1305 (RFC 8439) prescribe over the same uninterpreted block functions."""
import re
from local import *
from lanes import *

NOG = lambda d: re.sub(r"::<[^<>]*>", "", d)


def block_state(eng, fr, b, st, f, vals, rty, atys):
    s = eng.load_all(st, vals[0])
    if s.op == "agg":
        v = [x for x in s.a[2:] if type(x) is Term]
        s = v[0] if len(v) == 1 else s
    return [(st, unlen(mk("app", "chacha", explicit(s)), 64))]


def aes_encrypt(eng, fr, b, st, f, vals, rty, atys):
    a = [eng.load_all(st, v) for v in vals]
    if len(a) != 2:
        return None
    return [(st, unlen(mk("app", "aes", a[0], explicit(a[1])), 16))]


def models():
    return {"AES::init": opaque("aes_init", skip=(1,)), "AES::encrypt": aes_encrypt, "Gcm::gmult": opaque("gmult", sort=True),
            "ChaCha20Block::get_block": block_state, "Poly1305::mac": opaque("polymac", 16, norm=True)}


def impls(p):
    """[(type name, self type, {method: fn})] of the trait Cipher"""
    out = {}
    for (tm, sty), fid in p.impls.items():
        parts = tm.split("::")
        if parts[-2] == "Cipher" and sty in range(len(p.T)):
            t = p.T[sty]
            if t["k"] == "adt" and t.get("local"):
                out.setdefault(sty, {})[parts[-1]] = p.F.get(fid)
    return [(last(p.T[s]["d"]), s, m) for s, m in out.items()]


def u128_be(t, n=16):
    return from_be(elems(t, n), 16)


def bytes_of(x):
    """big-endian bytes of a 128-bit integer"""
    return seq_of(list(reversed(lanes_of(x, 16))))


def gmult(a, b):
    if (a.op == "i" and a.a[0] == 0) or (b.op == "i" and b.a[0] == 0):
        pass
    a, b = sorted((a, b), key=lambda t: t.id)
    return mk("app", "gmult", a, b)


def gcm_spec(key, iv, data, n, aad, m, enc):
    """(output bytes, tag bytes)"""
    A = mk("app", "aes_init", key)

    def E(block):
        return unlen(mk("app", "aes", A, explicit(block)), 16)
    H = u128_be(E(seq_of([I(0)] * 16)))
    ivb = elems(iv, 12)

    def ctr(c):
        return E(seq_of(ivb + [I(x) for x in c.to_bytes(4, "big")]))
    X = I(0)
    ab, db = elems(aad, m), elems(data, n)
    for i in range(0, m, 16):
        X = gmult(xor_int(X, from_be(ab[i:i + 16], 16), 16), H)
    out = []
    for k, i in enumerate(range(0, n, 16)):
        ks = elems(ctr(2 + k), 16)
        o = [bx([d, s]) for d, s in zip(db[i:i + 16], ks)]
        out += o
        X = gmult(xor_int(X, from_be(o if enc else db[i:i + 16], 16), 16), H)
    X = gmult(xor_int(X, I(((m * 8) << 64) | (n * 8)), 16), H)
    tag = xor_int(X, u128_be(ctr(1)), 16)
    return seq_of(out), bytes_of(tag)


def chacha_block(key, iv, counter):
    def le(b):
        return mk_lanes(b, 4)
    k, v = elems(key, 32), elems(iv, 12)
    s = [I(0x61707865), I(0x3320646e), I(0x79622d32), I(0x6b206574)] + [le(k[4 * i:4 * i + 4]) for i in range(8)] + \
        [I(counter)] + [le(v[4 * i:4 * i + 4]) for i in range(3)]
    return unlen(mk("app", "chacha", explicit(seq_of(s))), 64)


def chacha_spec(key, iv, data, n, aad, m, enc):
    db, ab = elems(data, n), elems(aad, m)
    out = []
    for k, i in enumerate(range(0, n, 64)):
        ks = elems(chacha_block(key, iv, 1 + k), 64)
        out += [bx([d, s]) for d, s in zip(db[i:i + 64], ks)]
    ct = out if enc else db
    pad = lambda l: [I(0)] * (-l % 16)
    mac = ab + pad(m) + ct + pad(n) + [I(x) for x in m.to_bytes(8, "little") + n.to_bytes(8, "little")]
    otk = subseq(chacha_block(key, iv, 0), I(0), I(32))
    return seq_of(out), unlen(mk("app", "polymac", explicit(otk), explicit(seq_of(mac))), 16)


SUITES = {"Gcm": [(16, gcm_spec), (32, gcm_spec)], "Poly1305": [(32, chacha_spec)]}


class Case:
    pass


def evaluate(p, sty, f, name, klen, spec, n, m, enc, tagn=16):
    """paths of one method for n bytes of data and m bytes of additional data -> Case(states, out, tag, err)"""
    c = Case()
    key, iv = arr("key%d" % klen, klen), arr("iv", 12)
    data, aad, tag = arr("data%d" % n, n), arr("aad%d" % m, m), arr("tag%d" % tagn, tagn)
    t = p.T[sty]
    me = mk("agg", sty, 0, *[mk("sym", ("arg", "self%d" % i)) for i in range(len(t["v"][0]["f"]))])
    e = LaneEngine(p, models())
    e.max_blocks = 150000 + 400 * n
    a = [mk("vref", me), mk("vref", key), mk("vref", iv), mk("vref", data), mk("vref", aad)]
    if not enc:
        a.append(mk("vref", tag))
    c.err, c.states = None, []
    c.tagarg = tag
    if f is None or f["argc"] != len(a):
        c.err = "method not found in the expected shape"
        return c
    try:
        c.states = call(e, f, a)
    except Exception as x:
        c.err = "%s: %s" % (type(x).__name__, str(x)[:150])
    c.e = e
    c.out, c.tag = spec(key, iv, data, n, aad, m, enc)
    return c


def flat(t, n):
    """the bytes of a byte string term of known length n"""
    k = known_elems(t)
    return k if k is not None and len(k) == n else [elem(t, I(i)) for i in range(n)]
