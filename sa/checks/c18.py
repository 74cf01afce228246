"""(1) Value analysis of the two configuration builders, as a caller composes them: new() or default(), any of the public
setters in sequences covering every setter alone, every ordered pair and whole permutations, then build(). The fields of
the configuration that results are compared with what was passed in, and with the secure defaults where nothing was;
without a certificate or a private key (server), or with a client certificate without key, build() must not succeed.
(2) Abstract interpretation of the client configured with a certificate but no key: it must never send that certificate."""
from local import *
from lanes import *
import itertools
import monitors as MO
import run as R

TECHNIQUE = "value analysis of builder compositions over MIR; abstract interpretation of the client without a key"
RULE = ("build() = Ok(c) => every field set by a caller holds exactly what was passed, every other field its default (None / URandom), "
        "certificate and key were both supplied; no client certificate without its key")
ASSUME = ["loading a PEM file yields a value determined by its path, or a failure"]

#        setter -> configuration field it sets
SET = {"Server": {"add_cert_pem": "cert", "add_privkey_pem": "privkey", "add_client_cert_ca": "client_cert_ca", "set_keylog_path": "keylog",
                  "enable_keylog": "keylog", "set_client_cert_custom_verify_fn": "client_cert_custom_verify_fn",
                  "set_server_name": "server_name", "set_prng": "prng_type"},
       "Client": {"add_client_cert_pem": "client_cert", "add_client_key_pem": "client_key", "set_server_name": "server_name",
                  "set_keylog_path": "keylog", "enable_keylog": "keylog"}}
NEED = {"Server": ("cert", "privkey"), "Client": ()}
LOADERS = ("::from_pem", "::from_pem_x509")


def loaded(eng, fr, b, st, f, vals, rty, atys):
    a = eng.load_all(st, vals[0])
    return [(st, mk("agg", rty, 1, mk("app", "loaded", last(f["d"]), a))), (st.copy(), mk("agg", rty, 0))]


def load_res(eng, fr, b, st, f, vals, rty, atys):
    t = eng.p.T[rty]
    if last(t.get("d", "")) == "Option":
        return loaded(eng, fr, b, st, f, vals, rty, atys)
    return None


def level(eng, fr, b, st, f, vals, rty, atys):
    return [(st, B(False))]


def methods(p, role):
    out = {}
    for f in p.j["fns"]:
        if f.get("bl") and f["local"] and f["k"] == "item":
            d = __import__("re").sub(r"::<[^<>]*>", "", f["d"])
            if d.endswith("%sConfigBuilder::%s" % (role, last(d))) or ("%sConfigBuilder as " % role) in d and last(d) == "default":
                out[last(d)] = f
    return out


def fields(p, role):
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct" and last(t["d"]) == role + "Config":
            return i, [n for n, ty in t["v"][0]["f"]], [ty for n, ty in t["v"][0]["f"]]
    return None, [], []


def is_opt(p, ty):
    return last(p.T[ty].get("d", "")) == "Option"


def seqs(role, have, tier):
    S = SET[role]
    setters = [s for s in S if s in have]
    req = [s for s in setters if S[s] in NEED[role]]
    opt = [s for s in setters if s not in req]
    out = [[]] + [[s] for s in setters]
    out += [list(req)]
    for s in opt:
        out += [req + [s], [s] + req]
    for a, b in itertools.permutations(opt, 2):
        out.append(req + [a, b])
    for a in opt:
        for r in req:
            out.append([r, a])
    for a in setters:
        out.append([s for s in setters if s != a])
        out.append(req + [a, a] if a in opt else req + [a])
    out += [setters, setters[::-1], setters[1:] + setters[:1]]
    if tier == "thorough":
        out += [list(x) for x in itertools.permutations(setters, min(len(setters), 4))]
        for k in range(3, len(opt) + 1):
            out += [req + list(x) for x in itertools.combinations(opt, k)]
    uniq = []
    for s in out:
        if s not in uniq:
            uniq.append(s)
    return uniq


def show_seq(s):
    return "new()" + "".join("." + x + "(..)" for x in s) + ".build()"


def compose(ctx, role, start, seq):
    p = ctx.prog
    M = methods(p, role)
    cty, names, ftys = fields(p, role)
    e = LaneEngine(p, dict([(l, load_res) for l in LOADERS] + [("::check_log_level", level)]))
    st = St()
    e.max_blocks = 60000
    try:
        states = call(e, M[start], [], st)
        want = {}
        for k, s in enumerate(seq):
            f = M[s]
            args = []
            for i in range(1, f["argc"]):
                t = p.T[f["lt"][1 + i]]
                if t["k"] == "adt" and t["a"] == "enum" and t.get("local"):
                    # a value other than the default
                    a = mk("agg", f["lt"][1 + i], 0)
                else:
                    a = mk("sym", ("arg", "%s-%d" % (s, k)))
                args.append(a)
            want[SET[role][s]] = (s, args)
            nxt = []
            for st, b in states:
                t = p.T[f["lt"][1]]
                if t["k"] == "ref":
                    st.mem[("builder",)] = e.load_all(st, b)
                    for s2, r in call(e, f, [mk("ref", ("builder",))] + args, st):
                        nxt.append((s2, s2.mem[("builder",)]))
                else:
                    nxt += call(e, f, [e.load_all(st, b)] + args, st)
            states = nxt
        res = []
        for st, b in states:
            f = M["build"]
            b = e.load_all(st, b)
            if p.T[f["lt"][1]]["k"] == "ref":
                b = mk("vref", b)
            res += [(s2, e.load_all(s2, v)) for s2, v in call(e, f, [b], st)]
    except Exception as x:
        ctx.incomplete.append("%s %s: %s: %s" % (role, show_seq(seq), type(x).__name__, str(x)[:150]))
        return
    ctx.n("compositions analysed")
    what = "%sConfigBuilder::%s" % (role, show_seq(seq).replace("new()", start + "()"))
    if role == "Server" and "set_client_cert_custom_verify_fn" in seq and "add_client_cert_ca" not in seq:
        complete = False
    else:
        complete = all(n in want for n in NEED[role])
    keyless = role == "Client" and "client_cert" in want and "client_key" not in want
    for st, v in res:
        kd, c = unwrap(p, v)
        if kd == "no":
            ctx.n("builds refused")
            continue
        if kd == "?" or c is None or c.op != "agg" or c.a[0] != cty:
            ctx.incomplete.append(what + ": result not determined")
            continue
        for n in NEED[role]:
            if n not in want:
                ctx.v("%s/built-without-%s" % (role, n), "%s returns a configuration although no %s was supplied (%s)" % (what, n, loc(p, M["build"])))
        if keyless:
            ctx.v("Client/built-without-key", "%s returns a configuration with a client certificate but no key (%s)" % (what, loc(p, M["build"])))
        ctx.n("configurations compared")
        for i, n in enumerate(names):
            g = c.a[2 + i]
            if n in want:
                s, args = want[n]
                holds(ctx, p, role, what, n, g, ftys[i], s, args, M[s])
            elif n == "prng_type":
                vn = p.T[ftys[i]]["v"][g.a[1]]["n"] if g.op == "agg" else None
                if vn is None:
                    ctx.incomplete.append(what + ": prng_type not determined")
                elif vn != "URandom":
                    ctx.v("%s/default-%s" % (role, n), "%s uses the %s generator although none was set (%s)" % (what, vn, loc(p, M[start])))
                else:
                    ctx.n("defaults confirmed")
            elif n in {x for x in SET[role].values()} and is_opt(p, ftys[i]):
                if g.op != "agg":
                    ctx.incomplete.append(what + ": %s not determined" % n)
                elif g.a[1] != 0:
                    ctx.v("%s/default-%s" % (role, n), "%s sets %s to %s although the caller did not (%s)" % (what, n, show(g, 3)[:100], loc(p, M["build"])))
                else:
                    ctx.n("defaults confirmed")
    if complete and not keyless and res and all(unwrap(p, v)[0] == "no" for st, v in res):
        ctx.incomplete.append(what + ": every path refuses the configuration")


def holds(ctx, p, role, what, n, g, ty, setter, args, f):
    key = "%s/%s" % (role, n)
    if is_opt(p, ty):
        if g.op != "agg":
            if not args or not undetermined(g):
                ctx.incomplete.append(what + ": %s not determined: %s" % (n, show(g, 2)[:80]))
            return
        if g.a[1] == 0:
            ctx.v(key + "/dropped", "%s: the configuration built does not carry %s, set with %s (%s)" % (what, n, setter, loc(p, f)))
            return
        g = g.a[2]
    if not args:
        ctx.n("options carried")
        return
    a = args[0]
    if g is a:
        ctx.n("options carried")
        return
    if a.op == "agg":
        if g.op == "agg":
            ctx.v(key + "/changed", "%s: %s is %s, not the value given to %s (%s)" % (what, n, show(g, 2), setter, loc(p, f)))
        return
    if a in syms(g):
        others = [s for s in syms(g) if s is not a and type(s.a[0]) is tuple and s.a[0][0] == "arg"]
        if others:
            ctx.v(key + "/mixed", "%s: %s is computed from %s" % (what, n, show(g, 3)[:120]))
        else:
            ctx.n("options carried")
        return
    src = [s.a[0][1] for s in syms(g) if type(s.a[0]) is tuple and s.a[0][0] == "arg"]
    if src or not syms(g):
        ctx.v(key + "/changed", "%s: %s is %s, not what was given to %s (%s)" % (what, n, show(g, 3)[:120], setter, loc(p, f)))
    else:
        ctx.incomplete.append(what + ": %s not determined: %s" % (n, show(g, 2)[:80]))


class Keyless(MO.Track):
    """a client with a certificate but no key"""

    def added(self, eng, st, fr, before, added):
        if self.side != "client":
            return
        t = eng.lookup(st, elem(added, I(0)))
        ph = self.phase(st)
        if t == 11:
            if ph.count(11) == 2 or 13 in ph and ph.count(11) == 1 and any("client_cert" in str(s.a[0]) or "param" in str(s.a[0]) for s in syms(added)):
                if any(type(s.a[0]) is tuple and s.a[0][0] == "param" for s in syms(added)):
                    self.n("certificates sent")
                    if self.scen.get("client_key") == "None":
                        self.v(eng, fr, "certificate-without-key", "the client puts its certificate into a Certificate message although no key is configured")

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        t = eng.lookup(st, elem(plain, I(0)))
        if t == 11:
            self.n("Certificate messages sent")
            if any(type(s.a[0]) is tuple and s.a[0][0] == "param" for s in syms(plain)) and self.scen.get("client_key") == "None":
                self.v(eng, fr, "certificate-without-key", "the client sends its certificate although no key is configured")


def run(ctx):
    p = ctx.prog
    jobs = []
    for role in ("Server", "Client"):
        M = methods(p, role)
        miss = [s for s in list(SET[role]) + ["new", "build"] if s not in M]
        if miss:
            ctx.incomplete.append("%sConfigBuilder: not found: %s" % (role, ", ".join(miss)))
        if "build" not in M:
            continue
        for s in seqs(role, M, ctx.tier):
            if "new" in M:
                jobs.append((role, "new", s))
        if "default" in M:
            for s in seqs(role, M, "quick")[:14]:
                jobs.append((role, "default", s))
    R.parallel(ctx, compose, jobs)
    R.handshakes(ctx, Keyless, ("client",), allscen=True, want=lambda side, sc: sc.get("client_cert") == "Some" and "128" in str(sc.get("suite")))
    for w, k in (("compositions analysed", 60), ("configurations compared", 30), ("options carried", 60), ("defaults confirmed", 60), ("builds refused", 10),
                 ("Certificate messages sent", 1)):
        ctx.floor(w, k)
