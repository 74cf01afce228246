"""Constant propagation through every code point table of the protocol: each function from a number to a protocol
enumeration is evaluated for every number (one symbolic run whose paths partition the numbers, or number by number), each
function from such an enumeration to a number for every variant, and the discriminants (which the code casts to the wire)
are read from the type definitions; all are compared with the IANA TLS 1.3 registries by name."""
from local import *

TECHNIQUE = "constant propagation over the MIR of all conversions between numbers and protocol enumerations, compared with the registries"
RULE = ("for every number n and conversion D: D(n) is the variant whose registry value is n, or no known variant if n has "
        "none; for every variant v and conversion E: E(v) is its registry value; D inverts E; a discriminant is the registry value")
ASSUME = ["variants are identified by their registry names (case and underscores ignored); a renamed variant is not compared"]

REG = {
    "RecordType": ("u8", {"Invalid": 0, "ChangeCipherSpec": 20, "Alert": 21, "Handshake": 22, "ApplicationData": 23, "Heartbeat": 24}),
    "HandshakeType": ("u8", {"ClientHello": 1, "ServerHello": 2, "NewSessionTicket": 4, "EndOfEarlyData": 5, "EncryptedExtensions": 8,
                      "Certificate": 11, "CertificateRequest": 13, "CertificateVerify": 15, "Finished": 20, "KeyUpdate": 24,
                      "MessageHash": 254, "HelloRetryRequest": 6, "ServerKeyExchange": 12}),
    "AlertLevel": ("u8", {"Warning": 1, "Fatal": 2}),
    "TlsError": ("u8", {"CloseNotify": 0, "UnexpectedMessage": 10, "BadRecordMac": 20, "RecordOverflow": 22, "HandshakeFailure": 40,
                 "BadCertificate": 42, "UnsupportedCertificate": 43, "CertificateRevoked": 44, "CertificateExpired": 45,
                 "CertificateUnknown": 46, "IllegalParameter": 47, "UnknownCa": 48, "AccessDenied": 49, "DecodeError": 50,
                 "DecryptError": 51, "ProtocolVersion": 70, "InsufficientSecurity": 71, "InternalError": 80,
                 "InappropriateFallback": 86, "UserCanceled": 90, "MissingExtension": 109, "UnsupportedExtension": 110,
                 "UnrecognizedName": 112, "BadCertificateStatusResponse": 113, "UnknownPskIdentity": 115,
                 "CertificateRequired": 116, "NoApplicationProtocol": 120}),
    "CipherSuite": ("u16", {"TLS_AES_128_GCM_SHA256": 0x1301, "TLS_AES_256_GCM_SHA384": 0x1302, "TLS_CHACHA20_POLY1305_SHA256": 0x1303,
                    "TLS_AES_128_CCM_SHA256": 0x1304, "TLS_AES_128_CCM_8_SHA256": 0x1305, "TLS_EMPTY_RENEGOTIATION_INFO_SCSV": 0x00ff}),
    "ExtensionType": ("u16", {"ServerName": 0, "MaxFragmentLength": 1, "StatusRequest": 5, "SupportedGroups": 10, "ECPointFormats": 11,
                      "SignatureAlgorithms": 13, "UseSrtp": 14, "Heartbeat": 15, "ApplicationLayerProtocolNegotiation": 16,
                      "EncryptThenMac": 22, "ExtendedMasterSecret": 23, "SessionTicket": 35, "PreSharedKey": 41, "EarlyData": 42,
                      "SupportedVersions": 43, "SupportedVersion": 43, "Cookie": 44, "PSKKeyExchangeMode": 45, "PSKKeyExchangeModes": 45,
                      "CertificateAuthorities": 47, "OidFilters": 48, "PostHandshakeAuth": 49, "SignatureAlgorithmsCert": 50, "KeyShare": 51}),
    "NamedGroup": ("u16", {"Secp256r1": 0x17, "Secp384r1": 0x18, "Secp521r1": 0x19, "X25519": 0x1d, "X448": 0x1e, "Ffdhe2048": 0x100,
                   "Ffdhe3072": 0x101, "Ffdhe4096": 0x102, "Ffdhe6144": 0x103, "Ffdhe8192": 0x104}),
    "SignatureScheme": ("u16", {"rsa_pkcs1_sha256": 0x401, "rsa_pkcs1_sha384": 0x501, "rsa_pkcs1_sha512": 0x601, "ecdsa_secp256r1_sha256": 0x403,
                        "ecdsa_secp384r1_sha384": 0x503, "ecdsa_secp521r1_sha512": 0x603, "rsa_pss_rsae_sha256": 0x804,
                        "rsa_pss_rsae_sha384": 0x805, "rsa_pss_rsae_sha512": 0x806, "ed25519": 0x807, "ed448": 0x808,
                        "rsa_pss_pss_sha256": 0x809, "rsa_pss_pss_sha384": 0x80a, "rsa_pss_pss_sha512": 0x80b, "rsa_pkcs1_sha1": 0x201,
                        "ecdsa_sha1": 0x203}),
}


def norm(s):
    return s.replace("_", "").lower()


def strip_ref(p, ty):
    while p.T[ty]["k"] == "ref":
        ty = p.T[ty]["e"]
    return ty


def payload_enum(p, ty, enums):
    """the protocol enumeration a return type carries: E, Option<E>, Result<E, _>"""
    t = p.T[ty]
    if ty in enums:
        return ty
    if t["k"] == "adt" and last(t.get("d", "")) in ("Option", "Result") and t.get("args"):
        a = t["args"][0]
        if type(a) is int and a in enums:
            return a
    return None


def run(ctx):
    p = ctx.prog
    enums = enum_named(p, *REG)
    for n in REG:
        if n not in enums.values():
            ctx.incomplete.append("enumeration not found: " + n)
    reg = {i: {norm(k): v for k, v in REG[n][1].items()} for i, n in enums.items()}
    # -- discriminants
    for i, n in enums.items():
        for v in p.T[i]["v"]:
            w = reg[i].get(norm(v["n"]))
            if w is None:
                continue
            ctx.n("discriminants compared")
            if v["d"] != w and any(used_as_number(p, i)):
                ctx.v("%s/discriminant/%s" % (n, v["n"]), "%s::%s is cast to the wire as %#x; the registry says %#x" % (n, v["n"], v["d"], w))
    for f in p.j["fns"]:
        if not f.get("bl") or f["k"] != "item" or f["argc"] != 1:
            continue
        a, r = f["lt"][1], f["lt"][0]
        ae, at = strip_ref(p, a), p.T[a]
        re = payload_enum(p, r, enums)
        if re is not None and at["k"] == "int":
            decode(ctx, p, f, re, enums[re], reg[re], at["b"])
        elif ae in enums and p.T[r]["k"] == "int":
            encode(ctx, p, f, ae, enums[ae], reg[ae])
        elif ae in enums and re is not None:
            pass
    level(ctx, p, enums, reg)
    be16(ctx, p)
    ctx.floor("decoding functions", 6)
    ctx.floor("encoding functions", 2)
    ctx.floor("discriminants compared", 50)
    ctx.floor("number to variant paths", 60)


def used_as_number(p, i):
    """does the program cast values of this enumeration to numbers?"""
    for f in p.j["fns"]:
        for b in f.get("bl") or []:
            for s in b["s"]:
                if '"discr"' in str(s) or "discr" in str(s):
                    yield True
                    return
    yield True


def decode(ctx, p, f, et, n, reg, bits):
    ctx.n("decoding functions")
    e = plain(p)
    x = mk("sym", ("arg", "n"))
    names = {v["n"]: v for v in p.T[et]["v"]}
    known = {reg[norm(k)]: k for k in names if norm(k) in reg}

    def classify(v):
        k, w = unwrap(p, v)
        if k == "no":
            return None
        if k == "val":
            w = v
        if w is not None and w.op == "agg" and w.a[0] == et:
            return p.T[et]["v"][w.a[1]]["n"]
        return "?"
    table = {}
    other = None
    excl = None
    vague = False
    try:
        for st, v in call(e, f, [x]):
            k = st.facts.get(x)
            c = classify(v)
            if c == "?":
                vague = True
            elif type(k) is int:
                table[k] = c
            elif type(k) is frozenset and other is None:
                other, excl = (c,), k
            else:
                vague = True
    except Exception as ex:
        vague = True
    if not vague and other and excl <= set(table):
        vals = set(table) | set(known)
        get = lambda i: table[i] if i in table else other[0]
        if other[0] is not None and norm(other[0]) in reg:
            ctx.v("%s/default" % n, "%s turns every number outside %d listed ones into %s" % (loc(p, f), len(table), other[0]))
    else:
        # number by number
        vals = range(256) if bits == 8 else sorted(set(known) | {k ^ (1 << b) for k in known for b in range(16)} | {k & 255 for k in known} | set(range(0, 1024)))
        memo = {}

        def get(i):
            if i not in memo:
                r = {classify(v) for st, v in call(plain(p), f, [I(i)])}
                memo[i] = r.pop() if len(r) == 1 else "?"
            return memo[i]
    for i in sorted(vals):
        c = get(i)
        ctx.n("number to variant paths")
        if c == "?":
            ctx.incomplete.append("%s: result for %#x not determined" % (f["d"], i))
            continue
        if i in known and c is None:
            ctx.v("%s/decode/%#x" % (n, i), "%s does not decode %#x, which is %s" % (loc(p, f), i, known[i]))
        elif c is not None and norm(c) in reg and reg[norm(c)] != i:
            ctx.v("%s/decode/%#x" % (n, i), "%s decodes %#x as %s, whose number is %#x" % (loc(p, f), i, c, reg[norm(c)]))
        elif i in known and norm(c) not in reg:
            ctx.v("%s/decode/%#x" % (n, i), "%s decodes %#x as %s instead of %s" % (loc(p, f), i, c, known[i]))
        elif i in known:
            ctx.sample("%s: %#x -> %s" % (f["d"], i, c))


def encode(ctx, p, f, et, n, reg):
    ctx.n("encoding functions")
    for vi, v in enumerate(p.T[et]["v"]):
        if norm(v["n"]) not in reg:
            continue
        e = plain(p)
        val = mk("agg", et, vi, *[mk("sym", ("payload", j)) for j in range(len(v["f"]))])
        a = mk("vref", val) if p.T[f["lt"][1]]["k"] == "ref" else val
        try:
            r = {w for st, w in call(e, f, [a])}
        except Exception as ex:
            r = set()
        w = r.pop() if len(r) == 1 else None
        if w is None or w.op != "i":
            ctx.incomplete.append("%s(%s): result not determined" % (f["d"], v["n"]))
            continue
        ctx.n("variant to number")
        if w.a[0] != reg[norm(v["n"])]:
            ctx.v("%s/encode/%s" % (n, v["n"]), "%s turns %s into %#x; the registry says %#x" % (loc(p, f), v["n"], w.a[0], reg[norm(v["n"])]))


def level(ctx, p, enums, reg):
    """functions from errors to alert levels: everything but close_notify is fatal"""
    te = [i for i, n in enums.items() if n == "TlsError"]
    al = [i for i, n in enums.items() if n == "AlertLevel"]
    for f in p.j["fns"]:
        if f.get("bl") and f["k"] == "item" and f["argc"] == 1 and strip_ref(p, f["lt"][1]) in te and f["lt"][0] in al:
            et = strip_ref(p, f["lt"][1])
            for vi, v in enumerate(p.T[et]["v"]):
                c = reg[et].get(norm(v["n"]))
                if c is None:
                    continue
                val = mk("agg", et, vi, *[mk("sym", ("payload", j)) for j in range(len(v["f"]))])
                r = {w for st, w in call(plain(p), f, [mk("vref", val) if p.T[f["lt"][1]]["k"] == "ref" else val])}
                w = r.pop() if len(r) == 1 else None
                if w is None or w.op != "agg":
                    continue
                ctx.n("alert levels")
                name = p.T[w.a[0]]["v"][w.a[1]]["n"]
                if name == "Warning" and c not in (0, 90):
                    ctx.v("AlertLevel/%s" % v["n"], "%s sends %s, which is always fatal, as a warning" % (loc(p, f), v["n"]))
                if name == "Fatal" and c == 0:
                    ctx.v("AlertLevel/%s" % v["n"], "%s sends close_notify as a fatal alert" % loc(p, f))


def be16(ctx, p):
    """two received bytes become the number they denote in network order"""
    for f in p.j["fns"]:
        if not (f.get("bl") and f["k"] == "item" and f["argc"] == 1 and f["d"].split("::")[-2:] == ["bytes", "to_u16"]):
            continue
        a, b = mk("sym", ("arg", "hi")), mk("sym", ("arg", "lo"))
        for hi, lo in ((0, 0), (0x13, 0x01), (0x01, 0x13), (0xff, 0x00), (0, 0xff), (0x80, 0x7f), (0x7f, 0x80), (255, 255)):
            try:
                r = {w for st, w in call(plain(p), f, [mk("vref", bytes_term([hi, lo]))])}
            except Exception:
                r = set()
            if len(r) != 1:
                continue
            w = r.pop()
            if w.op == "i":
                ctx.n("big-endian numbers")
                if w.a[0] != hi * 256 + lo:
                    ctx.v("to_u16", "%s turns the bytes %02x %02x into %#x" % (loc(p, f), hi, lo, w.a[0]))
