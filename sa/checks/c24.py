"""Value numbering of the MIR of every Cipher implementation in a byte-lane domain, with the AES and ChaCha20 block
functions uninterpreted, for every input length around all block boundaries: the output must be, byte for byte, the
input xor the keystream, the keystream being the block function applied to pairwise distinct counters, in order."""
from local import *
from lanes import *
import aead
import run as R

TECHNIQUE = "value numbering of MIR in a byte-lane domain over uninterpreted block functions, one analysis per input length"
RULE = "encrypt(x) has len(x) bytes and byte i is x[i] xor byte i mod B of block(counter0 + i div B); decrypt likewise"
ASSUME = ["block functions are uninterpreted (C30)",
          "input lengths are enumerated: 0..=200 (ChaCha20) and 0..=80 (GCM), and a few longer ones, so every length modulo the block size "
          "with zero to several full blocks; longer inputs repeat the same block loop"]


def run(ctx):
    p = ctx.prog
    jobs = []
    for k, (name, sty, ms) in enumerate(aead.impls(p)):
        if name not in aead.SUITES:
            ctx.incomplete.append("unknown AEAD implementation " + name)
            continue
        B = 16 if name == "Gcm" else 64
        lens = [0, 1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 5, 4 * B, 5 * B - 1]
        if name == "Gcm":
            lens += list(range(2, 15)) + [100, 256, 300, 4113]
        else:
            lens += [2, 15, 16, 17, 31, 32, 33, 48, 100, 256, 300, 1000, 4113]
        if ctx.tier == "thorough":
            lens = sorted(set(lens) | set(range(0, 5 * B + 2)) | {1000, 16401})
        for ki in range(len(aead.SUITES[name])):
            for enc in (True, False):
                for n in sorted(set(lens), reverse=True):
                    jobs.append((k, ki, enc, n))
    jobs.sort(key=lambda j: -j[3])
    R.parallel(ctx, one, jobs)
    ctx.floor("lengths analysed Gcm", 60)
    ctx.floor("lengths analysed Poly1305", 40)
    ctx.floor("output bytes compared", 3000)


def one(ctx, k, ki, enc, n):
    p = ctx.prog
    name, sty, ms = aead.impls(p)[k]
    klen, spec = aead.SUITES[name][ki]
    f = ms.get("encrypt" if enc else "decrypt")
    c = aead.evaluate(p, sty, f, name, klen, spec, n, 5, enc)
    what = "%s %s, %d-byte key, %d bytes" % (name, "encrypt" if enc else "decrypt", klen, n)
    if c.err:
        ctx.incomplete.append(what + ": " + c.err)
        return
    oks = 0
    for st, v in c.states:
        k, w = unwrap(p, v)
        if k == "no":
            continue
        if k == "?":
            ctx.incomplete.append(what + ": result not determined")
            continue
        oks += 1
        o = w.a[2] if enc and w.op == "agg" else w
        key = "%s/%s" % (name, "encrypt" if enc else "decrypt")
        L = length(o)
        if L.op != "i":
            ctx.incomplete.append(what + ": output length not determined")
            continue
        ctx.n("outputs compared")
        if L.a[0] != n:
            ctx.v(key + "/length", "%s: the output of %s has %d bytes" % (what, loc(p, f), L.a[0]))
            continue
        got, want = aead.flat(o, n), aead.flat(c.out, n)
        bad = [i for i, (x, y) in enumerate(zip(got, want)) if x is not y]
        ctx.n("output bytes compared", n)
        if bad:
            x = got[bad[0]]
            if undetermined(x):
                ctx.incomplete.append(what + ": output byte %d not determined: %s" % (bad[0], show(x)[:150]))
            else:
                ctx.v(key + "/keystream", "%s: in %s byte %d of the output is %s instead of %s" % (
                    what, loc(p, f), bad[0], show(x)[:200], show(want[bad[0]])[:200]))
    if not oks and enc:
        ctx.incomplete.append(what + ": no path returns a value")
    if oks:
        ctx.n("lengths analysed " + name)
        ctx.sample("%s: every output byte is input xor keystream of its own counter" % what)
