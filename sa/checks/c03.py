"""Abstract interpretation (symbolic terms over MIR, to a fixpoint, every path) of both handshake roles: on every path
that returns Ok the peer's whole Finished content was compared equal to HMAC(finished key of the peer's handshake
traffic secret, transcript hash up to just before it); every Finished message sent is the same function of the own
secret and the transcript at that point."""
from monitors import C03
import run as R

RULE = "Ok => verify_data == HMAC(HKDF-Expand-Label(peer handshake traffic secret, 'finished'), TH(messages before)); sent Finished likewise"
ASSUME = ["std and the ibig crate behave as documented (modelled in sa/std_model.py)",
          "Hkdf, Hmac and the hashes compute their functions (C22, C30)"]


def run(ctx):
    R.handshakes(ctx, C03)
    for w in ("accepting paths", "Finished comparisons", "Finished messages sent", "accepting paths after the peer's Finished"):
        ctx.floor(w)
