"""Abstract interpretation (symbolic terms over MIR, to a fixpoint, every path) of both handshake roles: the monitor
follows every transcript update and requires that what is hashed is exactly one whole message (its extent given by
its own length field), contiguous with the previous one of the record, that the messages hashed and the messages sent
are the same terms in the same order, and that on every path returning Ok the sequence of message types is one that
TLS 1.3 allows, with no received handshake message parsed but left out."""
from monitors import C04
import run as R

RULE = "transcript updates = exactly the handshake messages exchanged, each once, whole and in a TLS 1.3 order, on every accepting path"
ASSUME = ["std behaves as documented (modelled in sa/std_model.py)"]


def run(ctx):
    R.handshakes(ctx, C04)
    for w in ("accepting paths", "received messages exact", "hello matched", "own messages matched"):
        ctx.floor(w)
