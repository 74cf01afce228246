"""Abstract interpretation of both handshake roles in a byte-lane domain (symbolic terms over MIR, to a fixpoint, every
path): the counter of every AEAD call is recovered from its nonce by taking the xor with the IV of the very key used;
per key a monitor keeps the counter that is due (0 when installed, plus one per record) and compares. The connections
that result are then continued from an arbitrary 64-bit counter: tls_write and tls_read must use it, all of its eight
bytes, and leave it advanced by the number of records (the inductive step for every later history). Protected records
must reach the socket in the order in which they were protected."""
from monitors import C06
import run as R

TECHNIQUE = "abstract interpretation of MIR over symbolic terms with a byte-lane domain; induction over the record counter"
RULE = "nonce = IV of the same traffic secret xor BE64(counter), counter 0 for a new key and +1 per AEAD call; records are written in AEAD-call order"
ASSUME = ["fewer than 2^64 records under one key"]


def run(ctx):
    R.handshakes(ctx, C06, few=2)
    for w, k in (("nonces decided", 20), ("counters in step", 5), ("key counters generalised", 4), ("tls_write calls from an arbitrary counter", 1),
                 ("counters after a call in step", 4), ("protected records sent in order", 2)):
        ctx.floor(w, k)
