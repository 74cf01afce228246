"""Value numbering of the MIR of HMAC and HKDF with uninterpreted hash functions: for both hashes and key lengths around
every boundary (0, around 32/48/64/128, beyond), the value Hmac::result returns must be the RFC 2104 term over that
hash's own block size; for output lengths around every block boundary up to the maximum, Hkdf::expand must return the
first bytes of the RFC 5869 chain T(1) | T(2) | ...; the message and info are of unknown content and length."""
from local import *
from lanes import *

TECHNIQUE = "value numbering of MIR over uninterpreted hash functions, compared with the RFC 2104/5869 construction term"
RULE = ("HMAC(h,k,m) = h((k0 xor 5c..) | h((k0 xor 36..) | m)) with k0 = k, or h(k) when longer than h's block, zero padded to "
        "h's block; HKDF-Expand(prk,info,n) = first n bytes of T1|T2|.. with Ti = HMAC(prk, Ti-1|info|i), none beyond 255 blocks")
ASSUME = ["the hash functions are uninterpreted (C30)", "key and output lengths are enumerated around every block boundary; message and info are unknown"]

HASH = {"SHA256": ("sha256", 32, 64), "SHA384": ("sha384", 48, 128)}


def models(p):
    return {"::sha256": opaque("sha256", 32), "::sha384": opaque("sha384", 48)}


def hash_ty(p):
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "enum" and {v["n"].upper() for v in t["v"]} >= set(HASH):
            return i, {v["n"].upper(): k for k, v in enumerate(t["v"])}
    return None, {}


def struct(p, name):
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct" and last(t["d"]) == name:
            return i, t
    return None, None


def find(p, suffix, argc):
    r = [f for f in p.j["fns"] if f.get("bl") and f["local"] and f["k"] == "item" and f["argc"] == argc
         and __import__("re").sub(r"::<[^<>]*>", "", f["d"]).endswith(suffix)]
    return r[0] if r else None


def hmac_term(h, key, klen, msg):
    name, hl, bs = h
    if klen > bs:
        key = unlen(mk("app", name, key), hl)
        klen = hl
    k0 = elems(key, klen) + [I(0)] * (bs - klen)
    inner = unlen(mk("app", name, concat(seq_of([bx([k, I(0x36)]) for k in k0]), msg)), hl)
    return unlen(mk("app", name, concat(seq_of([bx([k, I(0x5c)]) for k in k0]), inner)), hl)


def run(ctx):
    p = ctx.prog
    ht, hv = hash_ty(p)
    new, upd, res = find(p, "Hmac::new", 2), find(p, "Hmac::update", 2), find(p, "Hmac::result", 1)
    ext, exp, prk = find(p, "Hkdf::extract", 3), find(p, "Hkdf::expand", 3), find(p, "Hkdf::from_prk", 2)
    if ht is None or not (new and upd and res and ext and exp and prk):
        ctx.incomplete.append("Hmac/Hkdf not found in the expected shape")
        return
    lens = [0, 1, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 96, 127, 128, 129, 131, 200]
    if ctx.tier == "thorough":
        lens = list(range(0, 300))
    unknown = [mk("sym", ("arg", "m1")), mk("sym", ("arg", "m2"))]
    none = [seq_of([])]
    for hn, (fn, hl, bs) in HASH.items():
        hval = mk("agg", ht, hv[hn])
        for kl, msgs in [(k, unknown) for k in lens] + [(k, none) for k in (0, hl, bs, bs + 1)]:
            key = arr("key%d" % kl, kl)
            e = LaneEngine(p, models(p))
            st = St()
            try:
                (st, h), = call(e, new, [hval, mk("vref", key)], st)
                st.mem[("h",)] = h
                for m in msgs:
                    (st, _), = call(e, upd, [mk("ref", ("h",)), mk("vref", m)], st)
                rs = call(e, res, [mk("ref", ("h",))], st)
            except Exception as x:
                ctx.incomplete.append("HMAC-%s, %d-byte key: %s: %s" % (hn, kl, type(x).__name__, str(x)[:100]))
                continue
            want = hmac_term((fn, hl, bs), key, kl, concat(msgs[0], msgs[-1]))
            ctx.n("HMAC key lengths analysed")
            bad = [v for st, v in rs if v is not want and not is_empty(e, st, *msgs)]
            v = bad[0] if bad else want
            if bad:
                if all(undetermined(v) for v in bad):
                    ctx.incomplete.append("HMAC-%s, %d-byte key: value not determined: %s" % (hn, kl, show(v)[:200]))
                    continue
                ctx.v("hmac/%s/%s" % (hn, "long key" if kl > bs else "short key"),
                      "%s with %s and a key of %d bytes (block size %d) computes %s" % (loc(p, res), hn, kl, bs, show(v)[:300]))
            else:
                ctx.sample("HMAC-%s, %d-byte key: %s(k0^5c.. | %s(k0^36.. | m)), block %d" % (hn, kl, fn, fn, bs))
        outs = sorted({0, 1, hl - 1, hl, hl + 1, 2 * hl - 1, 2 * hl, 2 * hl + 1, 3 * hl + 7, 12, 16, 42, 82, 255 * hl - 1, 255 * hl,
                       255 * hl + 1, 255 * hl + 500})
        key = prk_term = arr("prk", hl)

        def hm(k, msg):
            return unlen(mk("app", "hmac", I(hv[hn]), k, msg), hl)

        def m_result(eng, fr, b, st, f, vals, rty, atys):
            t, T = struct(p, "Hmac")
            s = eng.load_all(st, vals[0])
            names = [x[0] for x in T["v"][0]["f"]]
            fl = {n: eng.load_all(st, eng.field(s, 0, i)) for i, n in enumerate(names)}
            inp = [v for n, v in fl.items() if n not in ("hash", "key")]
            if "hash" not in fl or "key" not in fl or len(inp) != 1:
                return None
            return [(st, unlen(mk("app", "hmac", eng.discr_index(fl["hash"]), fl["key"], inp[0]), hl))]
        for n, info in [(n, mk("sym", ("arg", "info"))) for n in outs] + [(n, seq_of([])) for n in (hl, 2 * hl + 1)]:
            e = LaneEngine(p, dict(models(p), **{"Hmac<'a>::result": m_result, "Hmac::<'a>::result": m_result, "Hmac::result": m_result}))
            e.discr_index = lambda v: I(v.a[1]) if v.op == "agg" else mk("app", "hash?", v)
            st = St()
            try:
                (st, h), = call(e, prk, [hval, key], st)
                r = call(e, exp, [mk("vref", h), mk("vref", info), I(n)], st)
            except Exception as x:
                ctx.incomplete.append("HKDF-%s, %d bytes: %s: %s" % (hn, n, type(x).__name__, str(x)[:100]))
                continue
            ctx.n("HKDF output lengths analysed")
            for st, v in r:
                if not is_empty(e, st, info):
                    one_output(ctx, p, exp, hn, hl, n, v, hm, prk_term, info)
        # extract
        e = LaneEngine(p, dict(models(p), **{"Hmac<'a>::result": m_result, "Hmac::<'a>::result": m_result, "Hmac::result": m_result}))
        e.discr_index = lambda v: I(v.a[1]) if v.op == "agg" else mk("app", "hash?", v)
        salt, ikm = mk("sym", ("arg", "salt")), mk("sym", ("arg", "ikm"))
        try:
            (st, h), = call(e, ext, [hval, mk("vref", salt), mk("vref", ikm)], St())
            t, T = struct(p, "Hkdf")
            names = [x[0] for x in T["v"][0]["f"]]
            vals = [e.field(h, 0, i) for i in range(len(names))]
            ctx.n("HKDF extractions analysed")
            want = hm(salt, ikm)
            if want not in vals and not any(undetermined(v) for v in vals):
                ctx.v("extract/%s" % hn, "%s computes %s instead of HMAC(salt, ikm)" % (loc(p, ext), show(h)[:300]))
            if hval not in vals:
                ctx.v("extract hash/%s" % hn, "%s keeps another hash than the one it was given: %s" % (loc(p, ext), show(h)[:200]))
        except Exception as x:
            ctx.incomplete.append("HKDF-Extract: %s" % str(x)[:100])
    ctx.floor("HMAC key lengths analysed", 30)
    ctx.floor("HKDF output lengths analysed", 20)
    ctx.floor("HKDF extractions analysed", 2)


def one_output(ctx, p, exp, hn, hl, n, v, hm, prk_term, info):
    kind, w = unwrap(p, v)
    if n > 255 * hl:
        if kind == "ok":
            ctx.v("expand/%s/too long" % hn, "%s returns output for %d bytes, more than 255 blocks" % (loc(p, exp), n))
        return
    if kind == "no":
        ctx.v("expand/%s/refused" % hn, "%s refuses %d bytes, within 255 blocks of %d" % (loc(p, exp), n, hl))
        return
    w = w if kind == "ok" else v
    T, chain = [], None
    for i in range(1, (n + hl - 1) // hl + 1):
        prev = T[-1] if T else seq_of([])
        T.append(hm(prk_term, concat(concat(prev, info), seq_of([I(i)]))))
    want = seq_of([])
    for i, t in enumerate(T):
        want = concat(want, subseq(t, I(0), I(min(hl, n - i * hl))))
    if w is not want:
        if undetermined(w):
            ctx.incomplete.append("HKDF-%s, %d bytes: value not determined: %s" % (hn, n, show(w)[:200]))
            return
        ctx.v("expand/%s/%s" % (hn, "one block" if n <= hl else "several blocks"),
              "%s returns for %d bytes: %s" % (loc(p, exp), n, show(w)[:300]))
