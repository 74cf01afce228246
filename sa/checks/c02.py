"""Abstract interpretation (symbolic terms over MIR, to a fixpoint, every path) of the server handshake from
ServerConnection::accept in every configuration that requires client certificates: on every path that returns Ok the
monitor requires has_signed by the configured CA on the received certificate, the custom verify function's approval
of that certificate when configured, and a successful verification of the client's CertificateVerify under that
certificate's key over the client context string and the exact transcript."""
from monitors import C02
import run as R

RULE = "Ok from accept with client_cert_ca => CA check, custom verify (if set) and CertificateVerify all succeeded on that path, for the same received certificate"
ASSUME = ["std and the ibig crate behave as documented (modelled in sa/std_model.py)",
          "Ecdsa::verify decides signature validity (C19); has_signed's hash range is C17"]


def run(ctx):
    R.handshakes(ctx, C02, ("server",), want=lambda side, o: o.get("client_cert_ca") == "Some")
    for w in ("accepting paths", "accepting paths with proof", "signature checks", "custom verify calls"):
        ctx.floor(w)
