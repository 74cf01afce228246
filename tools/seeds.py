"""The planted bugs: (file, old text, new text) edits of /repo, what they break, how it shows."""
C = "net/client/connection.rs"
S = "net/server/connection.rs"
SEEDS = []

def seed(id, property, subs, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, subs=subs, demo=demo, needs=needs, breaks=breaks))

# ---- C01
seed("c01-deferred-error", "C01", [(C, """        if let ClientHsState::FinishWithError(err) = self.state {
            log::error!("Abort connection: {err:?}");
            return Err(err);
        }

        if fraqment""", """        if self.certificate_request.is_none() {
            if let ClientHsState::FinishWithError(err) = self.state {
                log::error!("Abort connection: {err:?}");
                return Err(err);
            }
        }

        if fraqment""")], "client_hostile.rs",
     "a server that asks for a client certificate and whose own certificate or signature is bad",
     "the deferred authentication error is forgotten when the server requested a client certificate")
seed("c01-unknown-key", "C01", [("net/handshake/certificate.rs", """            return Ecdsa::verify(pubkey, &signature, &hash);
        }
        false""", """            return Ecdsa::verify(pubkey, &signature, &hash);
        }
        // no key that could be used
        self.x509.is_some()""")], "client_hostile.rs",
     "a server certificate whose public key is not an EC key on a known curve",
     "any signature is accepted for a certificate without a usable public key")
# ---- C02
seed("c02-custom-fn", "C02", [(S, """            .has_signed(&cert)
            .is_err()
        {""", """            .has_signed(&cert)
            .is_err()
            && self.config.client_cert_custom_verify_fn.is_none()
        {""")], "server_hostile.rs",
     "a server with a custom verify function, and a client certificate of another CA",
     "with a custom verify function configured the CA's signature on the client's certificate is no longer required")
seed("c02-optional", "C02", [(S, """        let mut certs = match Certificate::from_hello(handshake.fraqment) {
            Ok(e) => e,
            Err(e) => {""", """        let mut certs = match Certificate::from_hello(handshake.fraqment) {
            Ok(e) => e,
            Err(TlsError::CertificateRequired)
                if self.config.client_cert_custom_verify_fn.is_some() =>
            {
                self.state = ServerHsState::ClientFinished;
                return Ok(());
            }
            Err(e) => {""")], "server_hostile.rs",
     "a server with a CA and a custom verify function, and a client that sends an empty certificate list",
     "a client without any certificate completes the handshake with a server that requires one")
seed("c02-late-error", "C02", [(S, """        if let ServerHsState::FinishWithError(err) = self.state {
            log::error!("Abort connection: {err:?}");
            return Err(err);
        }

        self.state = ServerHsState::Ready;""", """        if let ServerHsState::FinishWithError(err) = self.state {
            log::error!("Abort connection: {err:?}");
            if self.client_cert.is_none() {
                return Err(err);
            }
        }

        self.state = ServerHsState::Ready;"""), (S, """                    self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
                    return Ok(());
                }
            }
            _ => return Err(TlsError::IllegalParameter),
        }

        if sign_len""", """                    self.tshash.as_mut().unwrap().update(handshake.as_bytes());
                    self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
                    return Ok(());
                }
            }
            _ => return Err(TlsError::IllegalParameter),
        }

        if sign_len""")], "server_hostile.rs",
     "a client with somebody else's (CA-signed) certificate that signs with another key",
     "two cooperating sites: a bad CertificateVerify stays in the transcript, and the deferred error is dropped once a certificate was accepted")
# ---- C03
seed("c03-prefix", "C03", [(C, "if fraqment != verify_data {", "if !verify_data.starts_with(&fraqment) {")], "client_hostile.rs",
     "a server whose Finished message is cut short (even empty)", "the client accepts any prefix of the right verify_data")
seed("c03-zip", "C03", [(S, "if fraqment != verify_data {", "if fraqment.len() > verify_data.len() || fraqment.iter().zip(verify_data.iter()).any(|(a, b)| a != b) {")], "server_hostile.rs",
     "a client whose Finished message is cut short (even empty)", "the server compares only as many bytes as the client sent")
seed("c03-fold", "C03", [(S, "if fraqment != verify_data {", """let mut diff = (fraqment.len() ^ verify_data.len()) as u8;
        for (a, b) in fraqment.iter().zip(verify_data.iter()) {
            diff = a ^ b;
        }
        if diff != 0 {""")], "server_hostile.rs",
     "a client whose Finished message is right in its last byte only", "the accumulated difference is overwritten: only the last byte counts")
# ---- C04
seed("c04-empty-cert", "C04", [(C, """        self.tshash.as_mut().unwrap().update(&handshake_raw);

        if let Some(client_cert) = self.config.client_cert.as_ref() {
            if let Some(client_key)""", """        if let Some(client_cert) = self.config.client_cert.as_ref() {
            self.tshash.as_mut().unwrap().update(&handshake_raw);
            if let Some(client_key)""")], "client_hostile.rs",
     "a server that requests a certificate from a client that has none",
     "the client's empty Certificate message is sent but left out of its transcript, so its Finished does not cover it")
seed("c04-creq", "C04", [(C, """                        self.certificate_request = Some(handshake.fraqment.to_vec());
                        self.tshash.as_mut().unwrap().update(handshake.as_bytes());""",
     """                        self.certificate_request = Some(handshake.fraqment.to_vec());
                        if self.config.client_cert.is_some() {
                            self.tshash.as_mut().unwrap().update(handshake.as_bytes());
                        }""")], "client_hostile.rs",
     "a server that requests a certificate from a client that has none",
     "the CertificateRequest is left out of the transcript")
# ---- C05
seed("c05-late-clone", "C05", [(S, """        self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());

        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
""", """        self.tshash.as_mut().unwrap().update(handshake.as_bytes());

        self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
""")], "interop.rs", "client authentication",
     "the application secrets of the server are derived from a transcript that runs past the server's Finished")
seed("c05-sha384-master", "C05", [("net/key_schedule.rs", """        let derived_secret = hkdf_handshake_secret.expand(
            &get_hkdf_expand_label(b"derived", &empty_hash, hash_len),""", """        let derived_secret = hkdf_handshake_secret.expand(
            &get_hkdf_expand_label(b"derived", &empty_hash[..hash_len.min(32)], hash_len),""")], "interop.rs",
     "a cipher suite with SHA-384", "the master secret is derived with a truncated context")
# ---- C07
seed("c07-early-keys", "C07", [(C, """        let protection = self.stream.protection.as_mut().unwrap();
        let finished = get_finished_handshake(
            &protection.key_schedule.client_handshake_traffic_secret,
            self.tshash.as_mut().unwrap().as_ref(),
        )?;
""", """        let protection = self.stream.protection.as_mut().unwrap();
        let finished = get_finished_handshake(
            &protection.key_schedule.client_handshake_traffic_secret,
            self.tshash.as_mut().unwrap().as_ref(),
        )?;
        if self.certificate_request.is_some() {
            protection.generate_application_keys(application_tshash.as_ref())?;
        }
""")], "client_hostile.rs", "a server that requests a client certificate",
     "the client's Finished goes out under its application key instead of its handshake key")
# ---- C09
seed("c09-early-data", "C09", [("net/stream.rs", """        if self.protection.is_none() {
            // Don't write to the socket, if no secure
            // channel is present.
            return Err(TlsError::InternalError);
        }
""", """        if self.protection.is_none() {
            return self.write_record(RecordType::ApplicationData, src);
        }
""")], """mod evil;
use evil::*;
use std::io::Read;
fn main() {
    // the application writes before there is a secure channel
    let (_, b) = pair(
        |s| {
            let mut t = anothertls::net::TlsStream::new(s);
            let r = t.tls_write(b"secret");
            let _ = t.flush();
            r.is_err()
        },
        |l| {
            let mut v = vec![];
            let _ = accept(&l).read_to_end(&mut v);
            v
        },
    );
    check(b.unwrap().is_empty(), "nothing is sent without a secure channel");
}
""", "an application that writes to a stream whose handshake has not (yet) taken place",
     "application data is sent as a cleartext record")
seed("c09-alert-clear", "C09", [("net/stream.rs", """        let record_raw = if let Some(protect) = self.protection.as_mut() {
            protect.encrypt(record)?
        } else {
            record.as_bytes()
        };""", """        let record_raw = match self.protection.as_mut() {
            // both sides know the keys only once the handshake is complete
            Some(protect) if protect.application_keys.is_some() => protect.encrypt(record)?,
            _ => record.as_bytes(),
        };""")], "client_hostile.rs", "a handshake that fails after the ServerHello",
     "the fatal alert, and so the reason of the failure, is sent in the clear although handshake keys are in place")
# ---- C06
seed("c06-counter16", "C06", [("net/key_schedule.rs", "        for i in 0..8 {\n            out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;",
     "        for i in 0..2 {\n            out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;")], "nonces.rs",
     "more than 65536 records in one direction under one key", "only 16 bits of the record counter reach the nonce, so nonces repeat")
seed("c06-or", "C06", [("net/key_schedule.rs", "out[(12 - 1) - i] ^= (self.sequence_number", "out[(12 - 1) - i] |= (self.sequence_number")], "nonces.rs",
     "an IV with bits set where the counter has them", "counter bits are or-ed into the IV, so different counters give the same nonce")
# ---- C08
seed("c08-sum", "C08", [("crypto/aes/gcm.rs", "        if T != auth_tag {", """        let mut diff = (T.len() ^ auth_tag.len()) as u8;
        for (a, b) in T.iter().zip(auth_tag) {
            diff = diff.wrapping_add(a ^ b);
        }
        if diff != 0 {""")], "tags.rs", "a forged tag whose differences add up to 0 modulo 256", "an AES-GCM tag with two flipped top bits is accepted")
seed("c08-poly", "C08", [("crypto/chacha20/poly1305.rs", "        if tag == auth_tag {", "        if auth_tag.starts_with(&tag[..12]) {")], "tags.rs",
     "a forged tag that is right in its first 12 bytes", "the last 4 bytes of the Poly1305 tag are not compared")
# ---- C12
seed("c12-alert", "C12", [("net/alert.rs", "            109 => TlsError::MissingExtension,", "            110 => TlsError::MissingExtension,")], """mod evil;
use evil::check;
use anothertls::net::alert::TlsError;
fn main() {
    for c in [10u8, 40, 42, 43, 44, 45, 46, 47, 48, 49, 70, 71, 80, 109, 112, 116] {
        check(TlsError::new(c).as_u8() == c, &format!("alert {c} is understood"));
    }
}
""", "a peer that sends missing_extension (109)", "the received alert is reported as an unofficial one")
# ---- C13
seed("c13-warning", "C13", [("net/alert.rs", "            TlsError::CloseNotify => AlertLevel::Warning,", "            TlsError::CloseNotify | TlsError::UnrecognizedName => AlertLevel::Warning,")], """mod evil;
use evil::*;
use std::io::{Read, Write};
fn main() {
    // a hello for another server name
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let c = std::thread::spawn(move || {
        let mut s = std::net::TcpStream::connect(a).unwrap();
        let mut body = vec![3, 3];
        body.extend([7u8; 32]);
        body.extend([0, 0, 2, 0x13, 0x01, 1, 0]);
        let name = b"another.example";
        let mut sni = vec![0, 0];
        sni.extend(((name.len() + 5) as u16).to_be_bytes());
        sni.extend(((name.len() + 3) as u16).to_be_bytes());
        sni.push(0);
        sni.extend((name.len() as u16).to_be_bytes());
        sni.extend(name);
        let mut ext = sni;
        ext.extend([0, 43, 0, 3, 2, 3, 4]);
        ext.extend([0, 13, 0, 4, 0, 2, 4, 3]);
        ext.extend([0, 51, 0, 38, 0, 36, 0, 29, 0, 32]);
        ext.extend([9u8; 32]);
        body.extend((ext.len() as u16).to_be_bytes());
        body.extend(ext);
        let mut hs = vec![1, 0, (body.len() >> 8) as u8, body.len() as u8];
        hs.extend(body);
        let mut rec = vec![22, 3, 1, (hs.len() >> 8) as u8, hs.len() as u8];
        rec.extend(hs);
        s.write_all(&rec).unwrap();
        let mut v = vec![];
        let _ = s.read_to_end(&mut v);
        v
    });
    let cfg = server_config().set_server_name("anothertls.local".to_string()).build().unwrap();
    let r = anothertls::ServerConnection::new(l, cfg).accept().is_ok();
    let v = c.join().unwrap();
    check(!r, "the hello is refused");
    check(v == [21, 3, 3, 0, 2, 2, 112], "one fatal unrecognized_name alert is sent");
}
""", "a client that asks for another server name", "the handshake is aborted with a warning instead of a fatal alert")
# ---- C17
seed("c17-skew", "C17", [("utils/x509.rs", "            if current < not_before.get_unix_timestamp() {", "            if current + 86400 < not_before.get_unix_timestamp() {")], "dates.rs",
     "a certificate that becomes valid within the next day", "a certificate is accepted before its validity begins")
seed("c17-after", "C17", [("utils/x509.rs", "            if current > not_after.get_unix_timestamp() {", "            if current > not_after.get_unix_timestamp().max(not_after.get_unix_timestamp() / 86400 * 86400 + 86399) {")], "dates.rs",
     "a certificate that expired earlier today", "a certificate is accepted until the end of the day on which it expires")
# ---- C18
# ---- C19
seed("c19-range", "C19", [("crypto/ellipticcurve/ecdsa.rs", "        if sign.s <= ibig!(0) || sign.s >= pub_key.curve.n {", "        if sign.s <= ibig!(0) {")], "ecdsa.rs",
     "a signature whose s is a valid one plus the group order", "a second encoding of a valid signature is accepted: s has no upper bound")
seed("c19-order", "C19", [("crypto/ellipticcurve/ecdsa.rs", "        if x != sign.r {", "        if x < sign.r {")], "ecdsa.rs",
     "a forged signature whose recomputed coordinate happens to be the larger number", "the recomputed x coordinate need not equal the first component, only be no smaller")
# ---- C20
seed("c20-cert-len", "C20", [("net/handshake/certificate.rs", """            (lens >> 16) as u8,
            (lens >> 8) as u8,
            (lens as u8),""", """            (len >> 16) as u8,
            (len >> 8) as u8,
            (lens as u8),""")], """mod evil;
use evil::*;
use anothertls::net::handshake::Certificate;
fn main() {
    let mut c: Certificate = cert("server.pem");
    for n in 200..600usize {
        c.raw = vec![7; n];
        let b = c.get_certificate_for_handshake(vec![0]);
        let list = ((b[1] as usize) << 16) | ((b[2] as usize) << 8) | b[3] as usize;
        check(list == b.len() - 4, &format!("the list length of a certificate of {n} bytes"));
    }
}
""", "a certificate of 251 to 255 bytes modulo 256", "the high bytes of the certificate list's length are those of the certificate's length")
# ---- C22
seed("c22-chain", "C22", [("hash/hkdf.rs", "            hmac.update(&last);\n", "            hmac.update(&last[..last.len().min(32)]);\n")], """mod evil;
use evil::*;
use anothertls::hash::*;
fn main() {
    for (sha384, n) in [(false, 32usize), (true, 48)] {
        let typ = || if sha384 { HashType::SHA384 } else { HashType::SHA256 };
        let prk = vec![5u8; n];
        let hk = Hkdf::from_prk(typ(), prk.clone());
        let got = hk.expand(b"info", 3 * n).unwrap();
        let mut want: Vec<u8> = vec![];
        let mut last: Vec<u8> = vec![];
        for i in 1..4u8 {
            let mut m = Hmac::new(typ(), &prk);
            m.update(&last);
            m.update(b"info");
            m.update(&[i]);
            last = m.result();
            want.extend(&last);
        }
        check(got == want, "HKDF-Expand over three blocks");
    }
}
""", "HKDF-SHA384 with more than 48 bytes of output", "each block is chained over a truncated previous block")
# ---- C24
seed("c24-counter", "C24", [("crypto/aes/gcm.rs", "counter = (counter + 1) % 0x100000000; // 2^32", "counter = (counter + 1) % 0x100;")], "ctr.rs",
     "a record of more than 4064 bytes", "the AES-GCM block counter wraps after 256 blocks, so blocks share a counter value")
# ---- C10
seed("c10-secret", "C10", [("net/server/server_hello.rs", "                                let secret = rng.between(1, 32);", "                                let secret = bytes::to_ibig_be(&random);")], "hello.rs",
     "an observer who tries the server's public random as its private key", "the server's ephemeral private key is its hello random, which it sends in the clear")
# ---- C11
seed("c11-random", "C11", [(S, "KeyLog::new(filepath.to_owned(), client_hello.random)", "KeyLog::new(filepath.to_owned(), &server_hello.random)")], "interop.rs",
     "a server with a key log", "the server's key log lines name the connection by the server's random instead of the client's")
# ---- C14
seed("c14-window", "C14", [("net/extensions/supported_versions.rs", "            for i in (1..len + 1).step_by(2) {", "            for i in 1..len {")], "hello.rs",
     "a client whose versions hold the bytes 03 04 across two entries", "the version list is searched bytewise, so a client without TLS 1.3 is answered")
seed("c14-scsv", "C14", [("net/server/server_hello.rs", "                CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV => continue,", """                // signalling value: fall back to the mandatory suite
                CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV => {
                    cipher_suite_to_use.unwrap_or(CipherSuite::TLS_AES_128_GCM_SHA256)
                }""")], "hello.rs", "a client that offers the renegotiation signalling value before, or instead of, a cipher suite",
     "the server selects a suite that was not offered")
seed("c14-p384", "C14", [("net/server/server_hello.rs", "if matches!(sig_algo, SignatureScheme::ecdsa_secp256r1_sha256) {", "if matches!(sig_algo, SignatureScheme::ecdsa_secp256r1_sha256 | SignatureScheme::ecdsa_secp384r1_sha384) {")], "hello.rs",
     "a client that accepts ECDSA signatures on P-384 only", "the server goes on with a scheme the client does not accept")
# ---- C16
seed("c16-mask", "C16", [("net/record.rs", "        let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;", "        let len = (((buf[3] & 0x3f) as usize) << 8) | buf[4] as usize;")], """mod evil;
use anothertls::net::record::Record;
use evil::*;
fn main() {
    for n in [0usize, 1, 255, 256, 4095, 16383, 16384, 16401, 16640] {
        let mut r = vec![23, 3, 3, (n >> 8) as u8, n as u8];
        r.extend(vec![5; n]);
        let (used, rec) = Record::from_raw(&r).unwrap();
        check(used == r.len() && rec.fraqment.as_ref().len() == n, &format!("a record of {n} bytes"));
    }
}
""",
     "a received record of more than 16383 bytes", "the two top bits of the record length are ignored, so that large records are cut short")
# ---- C18
seed("c18-env", "C18", [("net/server/config.rs", "            keylog: self.keylog,\n            prng_type: self.prng_type,", "            keylog: self.keylog.or_else(|| std::env::var(\"SSLKEYLOGFILE\").ok()),\n            prng_type: self.prng_type,")], """mod evil;
use evil::*;
fn main() {
    check(server_config().build().unwrap().keylog.is_none(), "no key log by default");
    std::env::set_var("SSLKEYLOGFILE", "keys");
    check(server_config().build().unwrap().keylog.is_none(), "no key log unless the caller asks for it");
}
""", "a process with SSLKEYLOGFILE in its environment", "a server that was not configured to log its secrets does so")
seed("c18-reset", "C18", [("net/server/config.rs", "        self.prng_type = prng;\n        self", "        Self {\n            prng_type: prng,\n            client_cert_custom_verify_fn: None,\n            ..self\n        }")], """mod evil;
use evil::*;
fn main() {
    let f: fn(&anothertls::utils::x509::X509) -> bool = |_| false;
    let b = || server_config().add_client_cert_ca(p("ca.pem"));
    check(b().set_client_cert_custom_verify_fn(f).build().unwrap().client_cert_custom_verify_fn.is_some(), "kept");
    let c = b().set_client_cert_custom_verify_fn(f).set_prng(anothertls::rand::PRNG::URandom).build().unwrap();
    check(c.client_cert_custom_verify_fn.is_some(), "the verify function survives the other setters");
}
""", "set_prng called after set_client_cert_custom_verify_fn", "the custom verify function is dropped by a later setter")
# ---- C21
seed("c21-unknown", "C21", [("net/extensions/client.rs", """            consumed += 4;
            if extension_type.is_none() {
                consumed += size;
                continue;
            }""", """            if extension_type.is_none() {
                consumed += if size == 0 { 0 } else { size + 4 };
                continue;
            }
            consumed += 4;""")], "hello.rs",
     "a client hello with an unknown extension of length 0", "the extension is parsed again and again, the connection's thread never ends")
