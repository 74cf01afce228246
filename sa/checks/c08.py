"""Two analyses. (1) Value numbering of the MIR of every Cipher implementation in a byte-lane domain, over uninterpreted
block functions, for data and additional-data lengths around all block boundaries: every path of decrypt that returns
plaintext must have established that all 16 bytes of the received tag equal the tag GCM / ChaCha20-Poly1305 prescribe
for that key, nonce, additional data and ciphertext, and encrypt must produce that tag. (2) Abstract interpretation of
both handshake roles continued with tls_read: every decryption must get the received header as additional data and the
last 16 bytes as tag; nothing not decrypted, and nothing after a failed decryption, may be accepted or delivered."""
from local import *
from lanes import *
from monitors import C08
import aead
import run as R

TECHNIQUE = "value numbering of the AEAD implementations' MIR, and abstract interpretation of the record layer over symbolic terms"
RULE = ("decrypt returns Ok => the path compared the full received tag with tag(key, nonce, aad, ciphertext); record layer: aad = the five "
        "received header bytes, tag = the last 16 payload bytes; after a failure no Ok; delivered bytes come from decrypted plaintext only")
ASSUME = ["AES, GHASH multiplication, the ChaCha20 block and the Poly1305 polynomial are uninterpreted (C30)",
          "data and additional-data lengths are enumerated around the block boundaries; longer ones repeat the same block loops"]


def run(ctx):
    p = ctx.prog
    jobs = []
    for k, (name, sty, ms) in enumerate(aead.impls(p)):
        if name not in aead.SUITES:
            ctx.incomplete.append("unknown AEAD implementation " + name)
            continue
        ns = [0, 1, 15, 16, 17, 31, 32, 33, 40, 48, 63, 64, 65, 100, 128, 200]
        msz = [5, 0, 16, 20]
        if ctx.tier == "thorough":
            ns = list(range(0, 70)) + [127, 128, 129, 200, 256, 1000]
            msz = [5, 0, 1, 13, 15, 16, 17, 32, 33]
        for ki in range(len(aead.SUITES[name])):
            for enc in (True, False):
                for m in msz:
                    for n in (ns if m == 5 else ns[:6]):
                        jobs.append((k, ki, enc, n, m, 16))
            for n in (0, 1, 20):
                for tl in (0, 1, 8, 12, 15, 17, 32):
                    jobs.append((k, ki, False, n, 5, tl))
    R.parallel(ctx, one, jobs)
    R.handshakes(ctx, C08, few=2)
    for w, k in (("tag comparisons decided", 60), ("tags computed", 60), ("wrong tag lengths rejected", 10),
                 ("records authenticated with their received header and full tag", 1), ("reads followed", 1),
                 ("reads of an unprotected stream", 1), ("data delivered from pt", 1)):
        ctx.floor(w, k)


def equalities(e, st, want, got):
    """which byte positions of want and got are known equal on this path; want and got are byte lists"""
    eq = set()

    def both(x, y):
        eq.add((x, y))
        eq.add((y, x))

    def zero(t):
        """t == 0"""
        if t.op == "bin" and t.a[0] == "BitOr":
            zero(t.a[1])
            zero(t.a[2])
        elif t.op == "lanes":
            for x in t.a:
                zero(x)
        elif t.op == "bx":
            if t.a[0] == 0 and len(t.a) == 3:
                both(t.a[1], t.a[2])
            elif len(t.a) > 2:
                eq.add(("bx0", t))

    def holds(t):
        if t.op == "eq":
            x, y = t.a
            if y.op == "i" and y.a[0] == 0:
                zero(x)
            else:
                lx, ly = length(x), length(y)
                kx, ky = None, None
                if lx.op == "i" and 0 < lx.a[0] <= 64:
                    kx = aead.flat(x, lx.a[0])
                if ly.op == "i" and 0 < ly.a[0] <= 64:
                    ky = aead.flat(y, ly.a[0])
                if kx and ky and len(kx) == len(ky):
                    for u, v in zip(kx, ky):
                        both(u, v)
                both(x, y)
        elif t.op == "not" and t.a[0].op == "not":
            holds(t.a[0].a[0])
    for t, v in list(st.facts.items()):
        if v == 1:
            holds(t)
        elif v == 0 and t.op == "not":
            holds(t.a[0])
        elif v == 0 and t.op in ("bin", "bx", "lanes"):
            zero(t)
    out = []
    for w, g in zip(want, got):
        ok = (w, g) in eq or w is g
        if not ok:
            x = bx([w, g])
            ok = ("bx0", x) in eq
        out.append(ok)
    return out


def one(ctx, k, ki, enc, n, m, tl):
    p = ctx.prog
    name, sty, ms = aead.impls(p)[k]
    klen, spec = aead.SUITES[name][ki]
    f = ms.get("encrypt" if enc else "decrypt")
    c = aead.evaluate(p, sty, f, name, klen, spec, n, m, enc, tl)
    what = "%s %s, %d-byte key, %d bytes, %d bytes of additional data" % (name, "encrypt" if enc else "decrypt", klen, n, m)
    if c.err:
        ctx.incomplete.append(what + ": " + c.err)
        return
    want = aead.flat(c.tag, 16)
    seen = 0
    for st, v in c.states:
        kd, w = unwrap(p, v)
        if kd == "no":
            continue
        if kd == "?":
            ctx.incomplete.append(what + ": result not determined")
            continue
        seen += 1
        if enc:
            t = w.a[3] if w is not None and w.op == "agg" and len(w.a) > 3 else None
            L = length(t) if t is not None else None
            if L is None or L.op != "i":
                ctx.incomplete.append(what + ": tag not found")
                continue
            ctx.n("tags computed")
            if L.a[0] != 16:
                ctx.v("%s/tag-length" % name, "%s: %s returns a tag of %d bytes" % (what, loc(p, f), L.a[0]))
                continue
            bad = [i for i, (x, y) in enumerate(zip(aead.flat(t, 16), want)) if x is not y]
            if bad:
                x = aead.flat(t, 16)[bad[0]]
                if undetermined(x):
                    ctx.incomplete.append(what + ": tag not determined: " + show(x)[:150])
                else:
                    ctx.v("%s/tag" % name, "%s: byte %d of the tag of %s is %s instead of %s" % (what, bad[0], loc(p, f), show(x, 6)[:250], show(want[bad[0]], 6)[:250]))
            continue
        if tl != 16:
            ctx.v("%s/wrong-tag-length" % name, "%s: %s returns plaintext for a received tag of %d bytes" % (what, loc(p, f), tl))
            continue
        got = aead.flat(c.tagarg, 16)
        eqs = equalities(c.e, st, want, got)
        ctx.n("tag comparisons decided")
        if all(eqs):
            ctx.sample(what + ": plaintext only after all 16 tag bytes compared equal")
            continue
        # what did the path compare at all?
        facts = [t for t in st.facts if touches(t, c.tagarg)]
        if any(undetermined(t) for t in facts):
            ctx.incomplete.append(what + ": comparison not determined: " + "; ".join(show(t, 5) for t in facts)[:300])
            continue
        miss = [i for i, x in enumerate(eqs) if not x]
        ctx.v("%s/tag-unchecked" % name, "%s: %s returns plaintext although bytes %s of the tag were not established equal to the tag "
              "of this key, nonce, additional data and ciphertext (compared: %s)" % (
                  what, loc(p, f), miss, "; ".join(show(t, 5)[:200] for t in facts)[:400] or "nothing"))
    if not seen and enc:
        ctx.incomplete.append(what + ": no path returns a value")
    if not enc and tl == 16 and not seen:
        ctx.incomplete.append(what + ": no path returns plaintext")
    if not enc and tl != 16 and not seen:
        ctx.n("wrong tag lengths rejected")


def touches(t, s, seen=None):
    seen = set() if seen is None else seen
    if t is s:
        return True
    if type(t) is not Term or t in seen:
        return False
    seen.add(t)
    return any(type(x) is Term and touches(x, s, seen) for x in t.a)
