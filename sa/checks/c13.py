"""Abstract interpretation of both handshake roles, every path, in which each protocol error value is kept apart from the
others from the place where the code constructs it to the caller (no merging of states that carry different errors). Per
path a monitor counts the alert records written to the socket, their level, code and protection, and compares them with
the error the caller is given. Two extra environments are run along with the ordinary one: the peer's first record is an
alert, and any protected record decrypts to an alert, with arbitrary level and code; these must end, without an alert
being sent, in the error that the registry assigns to the code."""
import monitors as MO
import run as R
import tls_model
from engine import *
from local import last
from terms import *
from checks.c12 import REG

TECHNIQUE = "abstract interpretation of both roles with error values as typestate; symbolic alert injection"
RULE = ("Err(E), E with a registered code: exactly one fatal alert record of that code, protected iff record keys are in use; "
        "connection failure or alert received: no alert record, and Err of the received code's registered name")
ASSUME = ["the alert codes and names are those of the IANA TLS alert registry"]

CODE = REG["TlsError"][1]
NAME = {v: k for k, v in CODE.items()}
LVL, COD = mk("sym", ("alert", "level")), mk("sym", ("alert", "code"))


def script():
    return [I(21), I(3), I(3), I(0), I(2), LVL, COD]


class AlertTls(tls_model.TlsEngine):
    JOIN_MAX = 200
    LOOP_MAX = 20000

    def is_event_fn(self, f):
        """functions that can construct an error are followed like those that act"""
        if super().is_event_fn(f):
            return True
        if self.monitors and getattr(self.monitors[0], "side", "") == "client":
            return False
        if not (f["local"] and f.get("lt") and f.get("bl")):
            return False
        T = self.p.T[f["lt"][0]]
        return T["k"] == "adt" and last(T.get("d", "")) == "Result" and any(last(self.p.T[x].get("d", "")) == "TlsError" for x in T["args"] if type(x) is int)

    def trait_handler(self, f):
        h = super().trait_handler(f)
        if h is tls_model.tcp_read:
            return self.read_or_alert
        if h is tls_model.CIPH["decrypt"]:
            return self.decrypt_or_alert
        if h is tls_model.CIPH["encrypt"]:
            return self.encrypt_typed
        return h

    def mac_error(self, st, rty, v):
        """the model's unknown error of an AEAD call is the registered one"""
        if v.op == "agg" and v.a[1] == 1 and v.a[2].op == "sym" and v.a[2].a[0][0] == "aead_err":
            T = self.p.T[self.p.T[rty]["args"][1]]
            for i, x in enumerate(T.get("v", ())):
                if x["n"] == "BadRecordMac":
                    return mk("agg", v.a[0], 1, mk("agg", self.p.T[rty]["args"][1], i)), i
        return v, None

    def typed(self, outs, rty):
        r = []
        for s, v in outs:
            v, i = self.mac_error(s, rty, v)
            if i is not None:
                s.settag("err", i + 1)
            r.append((s, v))
        return r

    def encrypt_typed(self, eng, fr, b, st, f, vals, rty, atys):
        outs = tls_model.CIPH["encrypt"](eng, fr, b, st, f, vals, rty, atys)
        if outs is None:
            return None
        for s, v in outs:
            if v.a[1] == 1:
                s.settag("sealfail", 1)
        return self.typed(outs, rty)

    def decrypt_or_alert(self, eng, fr, b, st, f, vals, rty, atys):
        extra = None
        if st.tag("alerted") == 0 and st.tag("script") == 0:
            extra = st.copy()
        outs = tls_model.CIPH["decrypt"](eng, fr, b, st, f, vals, rty, atys)
        if outs is None:
            return None
        outs = self.typed(outs, rty)
        if extra is not None:
            extra.settag("alerted", 2)
            extra.settag("keyed", 1)
            outs.append((extra, tls_model.ok(rty, seq_of([LVL, COD, I(21)]))))
        return outs

    def read_or_alert(self, eng, fr, b, st, f, vals, rty, atys):
        pos = st.tag("script")
        base = []
        if pos == 0:
            first = st.tag("reads") == 0
            keep = st.copy() if first else None
            st.settag("reads", 1)
            base = tls_model.tcp_read(eng, fr, b, st, f, vals, rty, atys)
            if not first:
                return base
            st = keep
            pos = 1
        r = tls_model.mref(eng, st, vals[1])
        if r.op == "ref":
            r = mk("slm", I(0), length(eng.load(st, r)), *r.a)
        L = sub(r.a[1], r.a[0]) if r.op == "slm" else length(tls_model.cont(eng, st, r))
        L = eng.lookup(st, L)
        if type(L) is not int or L <= 0:
            return base or tls_model.tcp_read(eng, fr, b, st, f, vals, rty, atys)
        data = script()[pos - 1:]
        if not data:
            st.settag("iofail", 1)
            eng.event(st, fr, "tcp_read_failed")
            return base + [(st, tls_model.err(rty, tls_model.io_err()))]
        n = min(L, len(data))
        rest = mk("sym", ("after alert", L - n))
        set_len(rest, I(L - n))
        cell = seq_of(data[:n]) if n == L else concat(seq_of(data[:n]), rest)
        eng.store(st, r, cell)
        st.settag("script", pos + n)
        st.settag("alerted", 1)
        return base + [(st, tls_model.ok(rty, I(n)))]


class C13(MO.Track):
    @staticmethod
    def engine():
        return AlertTls

    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.enum = None
        self.sites = set()

    def errs(self, prog):
        if self.enum is None:
            self.enum = {i for i, t in enumerate(prog.T) if t["k"] == "adt" and t.get("local") and t["a"] == "enum" and last(t["d"]) == "TlsError"}
        return self.enum

    def on_agg(self, eng, st, fr, ty, var, ops):
        es = self.errs(eng.p)
        if ty in es:
            st.settag("err", var + 1)
            self.sites.add((fr.f["d"], fr.bb, var))
            if ops or fr.f.get("lt") and fr.f["lt"][0] == ty:
                st.settag("sawalert", 1)    # decoded from a number, which only alerts of the peer carry
        elif ops and ops[0].op == "agg" and ops[0].a[0] in es:
            st.settag("err", ops[0].a[1] + 1)

    def on_called(self, eng, st, fr, f, vals, rv):
        """results of functions that were not followed may carry an error of their own"""
        if rv.op in ("agg", "i", "b", "seq", "ref", "vref"):
            return
        T = eng.p.T[f["lt"][0]] if f.get("lt") else None
        if T and T["k"] == "adt" and last(T.get("d", "")) == "Result" and any(x in self.errs(eng.p) for x in T["args"]):
            st.mset("opq", mk("opq", rv))
            st.settag("opqerr", 1)
            self.n("results not followed: " + last(f["d"]) + ("" if last(f["d"]) not in ("from_raw", "new") else " of " + f["d"].split("::")[-2]))

    def unseen(self, eng, st):
        return st.tag("opqerr") == 1

    def on_assume(self, eng, st, fr, t, val):
        # the ordinary environment reaches the branch for received alerts too; it is judged in the injected ones
        if t.op == "discr" and type(val) is int and val == 0 and st.m("opq") is mk("opq", t.a[0]):
            st.settag("opqerr", 0)
        if val == 21 and type(val) is int and not st.tag("alerted"):
            st.settag("sawalert", 1)

    def on_transcript(self, eng, st, fr, before, added, dyn, ref):
        super().on_transcript(eng, st, fr, before, added, dyn, ref)
        if st.tag("err"):
            st.settag("err", 0)     # an error value that did not end the handshake

    def on_encrypt(self, eng, st, fr, recv, key, nonce, plain, aad):
        st.settag("keyed", 1)

    def on_decrypt(self, eng, st, fr, recv, key, nonce, ct, aad, tag):
        st.settag("keyed", 1)

    def alert(self, eng, st, fr, lvl, code, protected):
        self.n("alert records sent")
        k = st.tag("alerts")
        if k:
            self.v(eng, fr, "two-alerts", "a second alert is sent in one failed handshake")
        st.settag("alerts", min(k + 1, 2))
        c = eng.lookup(st, code)
        l = eng.lookup(st, lvl)
        st.settag("acode", c + 1 if type(c) is int else 0)
        if self.unseen(eng, st):
            st.settag("undec", 1)   # an error value whose construction was not seen
        if st.tag("alerted"):
            self.v(eng, fr, "answered", "an alert received from the peer is answered with an alert")
        if st.tag("iofail"):
            self.v(eng, fr, "after-failure", "an alert is sent after the connection failed")
        if type(l) is int:
            if l != 2 and c != 0:
                self.v(eng, fr, "level", "alert %s is sent with level %d, which is not fatal" % (NAME.get(c, c), l))
            else:
                self.n("alert levels decided")
        if st.tag("keyed") and not protected:
            self.v(eng, fr, "in-clear", "the alert is sent unprotected although record keys are in use")

    def on_tcp_write(self, eng, st, fr, data, partial):
        items = MO.records_of(eng, st, data)
        i = 0
        while i < len(items):
            if items[i][0] == "b" and i + 5 <= len(items) and all(x[0] == "b" for x in items[i:i + 5]):
                t = eng.lookup(st, items[i][1])
                hi, lo = eng.lookup(st, items[i + 3][1]), eng.lookup(st, items[i + 4][1])
                if t == 21:
                    body = items[i + 5:i + 7]
                    if len(body) == 2 and all(x[0] == "b" for x in body):
                        self.alert(eng, st, fr, body[0][1], body[1][1], False)
                        i += 7
                        continue
                    self.v(eng, fr, "malformed", "an alert record does not hold exactly two bytes: %s" % show(data, 2)[:120])
                    return
            k, x = items[i]
            if k == "c" and MO.is_app(x, "ct"):
                plain = x.a[3]
                ks = known_elems(plain)
                if ks and len(ks) == 3 and eng.lookup(st, ks[2]) == 21:
                    self.alert(eng, st, fr, ks[0], ks[1], True)
                elif ks and eng.lookup(st, ks[-1]) == 21:
                    self.v(eng, fr, "malformed", "a protected alert does not hold exactly two bytes")
            i += 1

    def finish(self, eng, results):
        es = self.errs(eng.p)
        known = {x["n"]: i for t in es for i, x in enumerate(eng.p.T[t]["v"])}
        for st, v in results:
            a = st.tag("alerts")
            got = st.tag("alerted")
            if MO.is_ok(v):
                if got:
                    self.v(eng, None, "accepted-alert", "the handshake succeeds although the peer sent an alert")
                if a:
                    self.v(eng, None, "ok-with-alert", "the handshake reports success although an alert was sent")
                self.n("successful ends")
                continue
            e = v.a[2] if v.op == "agg" and v.a[1] == 1 and len(v.a) > 2 else None
            e = eng.load_all(st, e) if e is not None else None
            if e is None or e.op != "agg" or e.a[0] not in es:
                if got:
                    self.n("received alerts undecided")
                else:
                    self.n("ends undecided")
                continue
            n = eng.p.T[e.a[0]]["v"][e.a[1]]["n"]
            if not got and st.tag("sawalert"):
                if a and n not in CODE:
                    self.n("ends undecided")
                continue
            if st.tag("undec") or self.unseen(eng, st):
                self.n("ends undecided")
                continue
            if got:
                c = eng.lookup(st, COD)
                ex = st.facts.get(COD) if type(c) is not int else None
                if type(c) is int:
                    want = NAME.get(c)
                    if n in CODE and CODE[n] != c:
                        self.v(eng, None, "received:%s" % n, "the peer's alert %d is reported to the caller as %s" % (c, n))
                    elif want in known and n != want:
                        self.v(eng, None, "received-lost:%s" % want, "the peer's alert %d (%s) is reported to the caller as %s" % (c, want, n))
                    else:
                        self.n("received alerts matched")
                elif n in CODE:
                    self.v(eng, None, "received:%s" % n, "an alert with another code than %d is reported to the caller as %s" % (CODE[n], n))
                elif n == "BrokenPipe" and not st.tag("iofail"):
                    self.v(eng, None, "received-pipe", "an alert of the peer is reported as a broken connection")
                else:
                    self.n("received alerts without a name")
                continue
            if st.tag("iofail") or st.tag("sealfail"):
                if st.tag("iofail") and n in CODE and not a:
                    self.v(eng, None, "failure-as:%s" % n, "a connection failure is reported as the protocol error %s" % n)
                self.n("connection failures")
                continue
            if n in CODE:
                if a == 0:
                    self.v(eng, None, "silent:%s" % n, "the handshake fails with %s but no alert is sent" % n)
                elif st.tag("acode") and st.tag("acode") - 1 != CODE[n]:
                    self.v(eng, None, "mismatch:%s" % n, "the handshake fails with %s but alert %s is sent" % (n, NAME.get(st.tag("acode") - 1, st.tag("acode") - 1)))
                elif not st.tag("acode"):
                    self.n("alert codes undecided")
                else:
                    self.n("failures with exactly their alert")
                    self.n("failure %s" % n)
            else:
                if a:
                    self.v(eng, None, "alert-for:%s" % n, "the caller is given %s, yet an alert %s was sent" % (n, NAME.get(st.tag("acode") - 1, "?")))
                self.n("ends without a protocol error")
        self.n("error construction sites", len(self.sites))


def run(ctx):
    R.handshakes(ctx, C13, few=3)
    for w, k in (("failures with exactly their alert", 10), ("received alerts matched", 20), ("connection failures", 2), ("alert levels decided", 10)):
        ctx.floor(w, k)
