"""Abstract interpretation (symbolic terms over MIR, to a fixpoint, every path) of the client handshake from
ClientConnection::connect: on every path that returns Ok, the monitor requires a successful ECDSA verification whose
key is the public key of a certificate taken from a received Certificate message, whose signature was received, and
whose hash is SHA-256 of 64 spaces, the server context string, a zero byte and the transcript hash of exactly the
messages up to and including that Certificate."""
from monitors import C01
import run as R

RULE = "Ok(TlsStream) from connect => verify(key of received certificate, received signature, sha256(context || TH(CH..Certificate))) was true on that path"
ASSUME = ["std and the ibig crate behave as documented (modelled in sa/std_model.py)",
          "Ecdsa::verify decides signature validity (C19) and X509 parsing yields the certificate's own key"]


def run(ctx):
    R.handshakes(ctx, C01, ("client",))
    for w in ("accepting paths", "accepting paths with proof", "signature checks"):
        ctx.floor(w)
