"""Abstract interpretation (symbolic terms over MIR, to a fixpoint) of the complete client and server handshakes
from ClientConnection::connect and ServerConnection::accept, for every path of every listed configuration. At every
AEAD call the key and IV terms are taken apart and compared with the RFC 8446 section 7.1 key schedule: labels,
context hash of the exact transcript, lengths for the negotiated suite, ECDHE input made of this connection's own
random private key and the peer's share; every Finished value sent is compared with its HMAC definition."""
from monitors import C05
import run as R

RULE = "key term = HKDF-Expand-Label(traffic secret, \"key\"/\"iv\"/\"finished\", \"\", len); traffic secret = Derive-Secret chain of RFC 8446 7.1 over the exact transcript prefix"
ASSUME = ["std and the ibig crate behave as documented (modelled in sa/std_model.py)",
          "Hkdf::extract/expand, Hmac and the hashes compute their functions (C22, C30)"]


def run(ctx):
    R.handshakes(ctx, C05)
    for w in ("server:hs", "client:hs", "client:ap", "server:ap", "finished sent", "suite decided", "ecdhe decided"):
        ctx.floor(w)
