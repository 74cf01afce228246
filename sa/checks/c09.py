"""Abstract interpretation (symbolic terms over MIR, to a fixpoint, every path) of both handshake roles, continued with
tls_write and tls_read on every established connection: every byte string written to the socket is taken apart into
records; after keys exist only ChangeCipherSpec may be in the clear, before that only hellos, ChangeCipherSpec and
alerts; every connection returned Ok has application keys installed; tls_write without protection returns an error and
writes nothing."""
from monitors import C09
import run as R

RULE = "socket writes = records whose payload is an AEAD output term, except CH/SH/CCS (and alerts before keys exist); Ok => protection with application keys; tls_write(protection None) => Err, no write"
ASSUME = ["std behaves as documented (modelled in sa/std_model.py)"]


def run(ctx):
    R.handshakes(ctx, C09)
    for w in ("socket writes", "plaintext records of type 22", "protected records written", "connections continued with tls_write"):
        ctx.floor(w)
