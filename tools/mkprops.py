#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": ["anothertls/src/" + f for f in files],
         "mechanism": [{"name": n, "where": "anothertls/src/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOHS = ("No test drives a handshake at all (the 22 tests are unit vectors for primitives and parsers); "
        "even a handshake test would sample a few honest peers, not every hostile message sequence.")
CL = "net/client/connection.rs"; SV = "net/server/connection.rs"; ST = "net/stream.rs"
RC = "net/record.rs"; KS = "net/key_schedule.rs"

p("C01", "A client never completes a handshake with a server that did not prove its key",
  "Connecting returns success only if, on that connection, the server presented a certificate and then a CertificateVerify whose ECDSA signature verified under that certificate's public key, over 64 spaces, the TLS 1.3 server context string, a zero byte and the hash of the handshake transcript up to and including that certificate. If that proof is missing, malformed or wrong, the caller gets an error and no connection.",
  ["inputs", "histories"], "every sequence, order and content of records a server (or attacker) can send, every configuration",
  NOHS, [CL, "net/handshake/certificate.rs"],
  [("handshake state machine", CL+" ClientHandshake"), ("signature check", "net/handshake/certificate.rs is_certificate_valid")])
p("C02", "A server that requires client certificates never accepts an unproven client",
  "When the server is configured with a client CA, accepting a connection returns success only if the client sent a certificate signed by that CA, the custom verify function (when configured) approved that same certificate, and the client's CertificateVerify verified under that certificate's key over the TLS 1.3 client context string and the transcript so far. A client that skips, reorders or fails any of these steps gets an error.",
  ["inputs", "histories", "configurations"], "every sequence of client messages, with and without a custom verify function",
  NOHS, [SV, "net/handshake/certificate.rs", "net/server/config.rs"],
  [("client authentication states", SV+" handle_client_certificate / handle_client_certificate_verify"), ("CA check", "net/handshake/certificate.rs has_signed")])
p("C03", "No handshake completes without the peer's correct Finished message",
  "In both roles a handshake is reported as established only after the peer's Finished message was received and its whole content compared equal to the HMAC, under the finished key derived from the peer's handshake traffic secret, of the transcript hash up to just before that message. The Finished message each role sends is the same function of its own handshake traffic secret and the transcript at that point.",
  ["inputs", "histories"], "every message sequence from the peer, both roles, every cipher suite",
  NOHS, [CL, SV, "net/handshake/finished.rs"],
  [("server Finished check", CL+" handle_server_finish"), ("client Finished check", SV+" handle_client_finish"), ("verify_data", "net/handshake/finished.rs")])
p("C04", "The transcript is exactly the handshake messages, in order, each once",
  "Every signature, Finished value and secret is computed over the concatenation of the handshake messages exchanged so far, each included exactly once, unmodified and in the order they were sent or received, in an order TLS 1.3 allows. A handshake message of a type that is not expected at that point aborts the handshake instead of being hashed or skipped.",
  ["inputs", "histories"], "every message sequence, both roles, with and without client authentication",
  NOHS, [CL, SV], [("transcript updates", CL+", "+SV+" tshash.update")])
p("C05", "Secrets, keys and IVs follow the TLS 1.3 key schedule",
  "On every handshake the handshake and application traffic secrets, record keys, IVs and finished keys are derived with the RFC 8446 labels, contexts and lengths from the ECDHE shared secret of this connection's own private key and the peer's key share, using the negotiated cipher suite's hash and key length. Application secrets are bound to the transcript from ClientHello to the server's Finished.",
  ["inputs", "configurations"], "every cipher suite, role and peer key share",
  "The only key schedule test is an empty stub; a vector would pin one suite and one role.",
  [KS, RC, CL, SV, "net/handshake/finished.rs"],
  [("key schedule", KS+" do_key_schedule / application_keys_from_master_secret / from_hkdf"), ("label encoding", KS+" get_hkdf_expand_label")])
p("C06", "No AEAD nonce is ever used twice under one key, and counters match the wire",
  "For every connection and direction, the nonce of each protected record is the direction's IV combined with a counter that starts at zero when the key is installed and increases by exactly one per record, so that no key/nonce pair repeats, whatever sequence of reads, writes, alerts and failures occurs. Protected records are put on the wire in the order of their counters.",
  ["histories", "fault_sequences"], "every interleaving of handshake, tls_read, tls_write, alerts and I/O errors on one connection",
  "No test protects even two records; reuse shows only after particular histories such as an error after encryption or a key change between records.",
  [KS, RC, ST], [("per-record nonce", KS+" get_per_record_nonce"), ("record protection", RC+" encrypt/decrypt")],
  [("sequence_number", "records protected so far under this key")])
p("C07", "Each record is protected with the right direction's key of the right epoch",
  "A role encrypts only with its own sending key and decrypts only with the peer's; handshake messages are protected under handshake keys, and application data only under application keys. Application keys are never installed before the peer's Finished has been verified.",
  ["histories", "configurations"], "both roles, every message sequence",
  NOHS, [RC, CL, SV, ST], [("key selection", RC+" encrypt/decrypt"), ("epoch switch", RC+" generate_application_keys")])
p("C08", "No unauthenticated plaintext is ever released",
  "Every AEAD implementation returns plaintext only when the full 16-byte tag it computed from the key, nonce, additional data and ciphertext it was given equals the received tag; otherwise it returns an error. The record layer authenticates every protected record with the header as received, and returns an error, never data, when authentication fails.",
  ["inputs"], "every ciphertext, tag, nonce and header",
  "Tests decrypt a few good vectors and at most one bad tag; truncated or partly compared tags and every other forgery are outside them.",
  ["crypto/aes/gcm.rs", "crypto/chacha20/poly1305.rs", RC], [("tag check", "crypto/aes/gcm.rs decrypt, crypto/chacha20/poly1305.rs decrypt"), ("record decrypt", RC+" decrypt")])
p("C09", "Nothing confidential leaves in the clear",
  "On an established connection every byte written to the socket belongs to an AEAD-protected record, and writing application data without protection fails without sending anything. During the handshake, once keys are available everything except ClientHello, ServerHello and ChangeCipherSpec is sent protected, and a connection handed to the caller always has application keys installed in both directions.",
  ["histories", "fault_sequences"], "every handshake outcome and every sequence of API calls on a stream",
  "No test inspects what is written to a socket.", [ST, CL, SV, RC], [("socket writes", ST+" tcp_write/flush/write_alert/tls_write")])
p("C10", "All secret or fresh values come from the system's random source",
  "With the default random generator configured, the ephemeral key-exchange private key, the hello random, the certificate request context and each ECDSA signing nonce are freshly drawn from the operating system's random source for each use, never constant, reused or taken from the seeded test generator. The signing nonce is drawn anew for every signature, whatever generator is configured.",
  ["histories", "configurations"], "every handshake in both roles and every signature",
  "Randomness cannot be observed by example outputs; tests use fixed seeds.", [CL, SV, "rand/mod.rs", "rand/urandom.rs", "net/server/server_hello.rs", "crypto/ellipticcurve/ecdsa.rs"],
  [("generators", "rand/urandom.rs"), ("signing nonce", "crypto/ellipticcurve/ecdsa.rs sign")])
p("C11", "Secrets are exported only through a configured key log, and faithfully",
  "Private keys, shared secrets, traffic secrets, record keys and IVs are never written to a socket, to standard output or error or to a file, except traffic secrets to the key log file when one is configured. Each key log line pairs the label of a direction and epoch with this connection's client random and exactly that direction's and epoch's traffic secret, in the key log format.",
  ["histories", "configurations"], "every handshake, with and without key logging, at every log level",
  "Tests never look at the key log or at what is printed.", ["utils/keylog.rs", CL, SV], [("key log", "utils/keylog.rs")])
p("C12", "Wire code points decode and encode consistently with the TLS registries",
  "Every code point table of the protocol (record types, handshake types, alerts, cipher suites, extension types, named groups, signature schemes) maps each number the implementation understands to the meaning the TLS 1.3 registries give it, and converting a value to its number and back yields the same value. Numbers it does not understand are never decoded as some other known value.",
  ["inputs"], "all 256 or 65536 values of every table",
  "Tests touch a handful of code points; the tables are total functions over all numbers.",
  ["net/alert.rs", "net/handshake/mod.rs", RC, "crypto/ciphersuite.rs", "net/extensions/shared.rs", "net/extensions/named_groups.rs", "net/extensions/signature_algorithm.rs"],
  [("tables", "net/alert.rs TlsError, net/handshake/mod.rs HandshakeType, net/record.rs RecordType, crypto/ciphersuite.rs CipherSuite, net/extensions/*.rs")])
p("C13", "A failed handshake sends exactly the matching alert and reports the error",
  "When a handshake fails with a protocol error, the role sends one fatal alert whose description is the code of the error it reports, protected if keys are installed, and the caller receives that error. Connection-level failures and alerts received from the peer are not answered with an alert, and the caller receives the error the peer's alert code denotes.",
  ["inputs", "histories"], "every failure at every step of either handshake",
  NOHS, [CL, SV, ST, "net/alert.rs"], [("alert on failure", CL+" / "+SV+" do_handshake_with_error"), ("alert encoding", ST+" write_alert")])
p("C14", "Only offered and supported TLS 1.3 parameters are ever negotiated",
  "A server answers only a hello that offers TLS 1.3, with a cipher suite the client offered and the server implements, a key share in a group the client sent a share for, and only if the client accepts the server's signature scheme; a client accepts only a ServerHello selecting TLS 1.3, one of the suites and the group it offered. The negotiated suite alone determines cipher, key length and transcript hash on both sides.",
  ["inputs"], "every ClientHello and ServerHello",
  NOHS, ["net/server/server_hello.rs", "net/client/client_hello.rs", "crypto/ciphersuite.rs", "net/extensions/supported_versions.rs"], [("server selection", "net/server/server_hello.rs from_client_hello"), ("client acceptance", "net/server/server_hello.rs from_raw")])
p("C15", "No peer input can crash the endpoint",
  "Whatever bytes a peer sends, during or after the handshake, processing them ends in data or an error result: no out-of-range access, arithmetic overflow, failed unwrap, unimplemented branch or other panic is reachable from received bytes.",
  ["inputs"], "every byte string received at every point of either role",
  "Tests feed well-formed messages only; a panic needs one particular malformed length, type or truncation among all inputs.",
  [RC, ST, CL, SV, "net/handshake/mod.rs", "net/handshake/certificate.rs", "net/server/server_hello.rs", "net/client/client_hello.rs", "net/extensions/shared.rs", "utils/x509.rs", "utils/der.rs", "crypto/ellipticcurve/signature.rs"],
  [("parsers", "net/**, utils/x509.rs, utils/der.rs, crypto/ellipticcurve/signature.rs")])
p("C16", "Received records are framed by their length, never by read sizes",
  "However the network splits or merges the byte stream, each record is taken as its five header bytes and exactly the number of payload bytes its length field says, in stream order; no received byte is dropped or interpreted twice. Application data larger than the caller's buffer is delivered by later reads rather than lost.",
  ["schedules", "inputs"], "every segmentation of the stream into reads and every caller buffer size",
  "No test reads from a socket.", [ST, RC, CL, SV], [("record reading", RC+" from_raw, "+ST+" tls_read, "+CL+" / "+SV+" do_handshake")])
p("C17", "A certificate is accepted as CA-signed only over exactly its signed part",
  "A certificate counts as signed by a CA only if the signature in the certificate verifies under the CA certificate's own public key over the hash of exactly the received encoding of its to-be-signed part, from which all the fields used are parsed. A certificate outside its validity period, or that fails to parse, is never accepted in a handshake.",
  ["inputs"], "every certificate a peer can send", "Tests parse two fixed certificates and verify one signature.",
  ["net/handshake/certificate.rs", "utils/x509.rs"], [("CA check", "net/handshake/certificate.rs has_signed"), ("validity", "net/handshake/certificate.rs from_hello, utils/x509.rs is_valid")])
p("C18", "Configurations are complete and default to the secure choice",
  "A server configuration is built only if both a certificate and a private key were supplied, and every option the caller sets is carried unchanged into the configuration used by the connection; options not set default to the secure choice (system random source, no key logging). A client certificate is never presented without its key.",
  ["configurations"], "every combination of builder calls", "Tests never build a configuration.",
  ["net/server/config.rs", "net/client/config.rs", CL], [("builders", "net/server/config.rs build, net/client/config.rs build")])
p("C19", "Signature verification rejects out-of-range and non-matching signatures",
  "ECDSA verification succeeds only if both signature components lie between 1 and the group order minus 1 and the recomputed curve point's x-coordinate, reduced modulo the order, equals the first component, using exactly the given message hash, public key and both components. Signing never emits a signature with a zero component, and the components are emitted as the shortest DER INTEGERs, which strict verifiers require.",
  ["inputs"], "every signature, key and message", "Tests check one or two valid signatures; edge values such as zero or the order are a vanishing fraction of inputs.",
  ["crypto/ellipticcurve/ecdsa.rs"], [("verify", "crypto/ellipticcurve/ecdsa.rs verify"), ("sign", "crypto/ellipticcurve/ecdsa.rs sign")])
p("C20", "Every length field sent equals the length of what follows",
  "In every message the implementation emits (records, handshake messages, hellos, extensions, certificates, key shares, signatures), each length prefix equals the number of bytes of the element it describes, in big-endian order at the width the protocol prescribes. This holds for every value of the variable-length parts within the protocol's limits.",
  ["inputs", "configurations"], "all server names, certificates, session ids, contexts, payloads",
  "Tests serialise one or two messages; the lengths of variable parts are unbounded.", ["net/handshake/mod.rs", RC, "net/extensions/shared.rs", "net/client/client_hello.rs", "net/server/server_hello.rs", "net/handshake/certificate.rs"],
  [("serialisers", "net/**/as_bytes, to_bytes")])
p("C21", "Parsing peer input always terminates, with bounded recursion",
  "Every loop that parses received bytes makes progress on each iteration, and recursion while parsing is bounded independently of the input, so no message can make the endpoint hang or exhaust its stack.",
  ["inputs"], "every received message", "A hang or deep recursion needs one crafted input.",
  ["net/extensions/client.rs", "net/extensions/server.rs", "net/extensions/key_share.rs", "utils/der.rs", "utils/x509.rs", "net/handshake/certificate.rs"], [("parse loops", "net/extensions/*.rs, utils/x509.rs, utils/der.rs")])
p("C22", "HMAC and HKDF use the construction and block sizes of the selected hash",
  "For every supported hash, HMAC pads or hashes its key to that hash's own block size and applies the inner and outer padding to the whole block, and HKDF expansion chains each block over the previous one, the info and a one-byte counter starting at 1, returning exactly the requested number of bytes.",
  ["inputs"], "every hash, key length, message and output length", "Vectors cover a few key lengths; keys longer than a block and other hashes are not exercised.",
  ["hash/hmac.rs", "hash/hkdf.rs"], [("HMAC", "hash/hmac.rs result"), ("HKDF", "hash/hkdf.rs extract/expand")])
p("C23", "The key exchange rejects degenerate peer key shares",
  "The shared secret is computed only from a peer key share of the negotiated group with exactly that group's length, and a shared secret that is all zero aborts the handshake.",
  ["inputs"], "every key share value and length", "Tests multiply a few honest points.",
  [KS, "net/extensions/key_share.rs"], [("shared secret", KS+" from_handshake")])
p("C24", "Symmetric ciphers transform every byte of their input",
  "For every input length, encryption outputs exactly as many bytes as the input and combines every input byte with keystream, including a final block that is exactly full, and distinct blocks use distinct counter values.",
  ["inputs"], "all input lengths", "Vectors cover a few lengths, none a multiple of the block size for ChaCha20.",
  ["crypto/chacha20/cipher.rs", "crypto/aes/gcm.rs"], [("stream encryption", "crypto/chacha20/cipher.rs encrypt, crypto/aes/gcm.rs")])
# --- properties this family cannot decide here
p("C30", "Cryptographic primitives compute their specified functions",
  "SHA-256, SHA-384, AES, GHASH, ChaCha20, Poly1305, X25519 and P-256 arithmetic return the value their specifications define for every input.",
  ["inputs"], "every input of every primitive", "Vectors sample a few inputs.", ["crypto/aes/cipher.rs", "crypto/ellipticcurve/math.rs", "hash/sha256.rs", "hash/sha384.rs"], [("primitives", "crypto/**, hash/**")])
p("C31", "Secret-dependent computations take time independent of the secret",
  "The time taken by scalar multiplication, AES, tag and Finished comparison and signing does not depend on secret values.",
  ["inputs"], "all secrets", "Timing is not asserted by tests.", ["crypto/ellipticcurve/math.rs", "crypto/aes/cipher.rs"], [("scalar multiplication", "crypto/ellipticcurve/math.rs multiply")])
p("C32", "Decoding inverts encoding for certificates, PEM and Base64",
  "Decoding any valid encoding yields the encoded value, and encoding a value and decoding it yields the value again, for DER, PEM, Base64 and certificate dates.",
  ["inputs"], "all values", "Tests sample a few.", ["utils/base64.rs", "utils/pem.rs", "utils/der.rs", "utils/x509.rs"], [("codecs", "utils/*.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
