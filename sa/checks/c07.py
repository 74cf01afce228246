"""Abstract interpretation (symbolic terms over MIR, to a fixpoint, every path) of both handshake roles, continued with
tls_write and tls_read on every established connection: every AEAD call's key term is classified by the traffic secret
it derives from, and compared with the direction (sending/receiving role), the epoch and the content type of the
record; application keys must not be used or installed on a path on which the peer's Finished has not been verified."""
from monitors import C07
import run as R

RULE = "encrypt uses the role's own write key, decrypt the peer's; content type 22 under handshake keys, 23 under application keys; application keys only after the peer's Finished compared equal"
ASSUME = ["std and the ibig crate behave as documented (modelled in sa/std_model.py)"]


def run(ctx):
    R.handshakes(ctx, C07)
    for w in ("record key uses", "encrypt server hs", "decrypt client hs", "connections continued with tls_write", "connections continued with tls_read"):
        ctx.floor(w)
