//! An AnotherTLS client against servers that do, and do not, prove who they are.
mod evil;
use anothertls::net::handshake::HandshakeType as H;
use anothertls::net::record::RecordType;
use evil::*;

fn finish_ok(mut p: Peer, creq: bool) -> String {
    p.send_finished();
    let r: Result<Vec<u8>, String> = (|| {
        let mut seen = vec![];
        loop {
            let want = p.peer_finished();
            let (t, b) = p.recv()?;
            seen.push(t);
            if t == 20 {
                return if b == want { Ok(seen) } else { Err("bad finished".into()) };
            }
        }
    })();
    p.end();
    if let Err(e) = &r {
        return format!("{e}");
    }
    let good = match &r {
        Ok(s) if creq => s == &vec![11, 15, 20] || s == &vec![11, 20],
        Ok(s) => s == &vec![20],
        Err(_) => false,
    };
    format!("{}{r:?}", if good { "GOOD " } else { "" })
}
fn drain(mut p: Peer) -> String {
    let r = p.recv();
    p.end();
    if matches!(&r, Err(e) if e.starts_with("clear")) {
        return "LEAK".into();
    }
    format!("{r:?}")
}

fn main() {
    let want = std::env::args().nth(1).unwrap_or_default();
    let mut cases: Vec<(&str, bool, fn(Peer) -> String)> = vec![];
    cases.push(("honest", true, |mut p| {
        p.send_ee_cert("server.pem");
        p.send_cv("server_key.pem");
        finish_ok(p, false)
    }));
    cases.push(("honest, asks for a certificate", true, |mut p| {
        p.send(H::EncryptedExtensions, vec![0, 0]);
        p.send_cert_request(&[1, 2, 3]);
        p.send(H::Certificate, cert("server.pem").get_certificate_for_handshake(vec![0]));
        p.send_cv("server_key.pem");
        finish_ok(p, true)
    }));
    cases.push(("honest, all in one record", true, |mut p| {
        let mut all = vec![];
        let add = |p: &mut Peer, all: &mut Vec<u8>, t: H, b: Vec<u8>| {
            let m = anothertls::net::handshake::Handshake::to_bytes(t, b);
            p.ts.update(&m);
            all.extend(m);
        };
        add(&mut p, &mut all, H::EncryptedExtensions, vec![0, 0]);
        add(&mut p, &mut all, H::Certificate, cert("server.pem").get_certificate_for_handshake(vec![0]));
        let b = p.cert_verify("server_key.pem", "server");
        add(&mut p, &mut all, H::CertificateVerify, b);
        let b = p.own_finished();
        add(&mut p, &mut all, H::Finished, b);
        p.send_untracked(RecordType::Handshake, &all);
        let w = p.peer_finished();
        let r = p.recv();
        p.end();
        if r == Ok((20, w)) { "GOOD".into() } else { format!("{r:?}") }
    }));
    cases.push(("signature by another key", false, |mut p| {
        p.send_ee_cert("server.pem");
        p.send_cv("client_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("signature by another key, after a certificate request", false, |mut p| {
        p.send(H::EncryptedExtensions, vec![0, 0]);
        p.send_cert_request(&[9]);
        p.send(H::Certificate, cert("server.pem").get_certificate_for_handshake(vec![0]));
        p.send_cv("client_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("signature with the client's label", false, |mut p| {
        p.send_ee_cert("server.pem");
        let b = p.cert_verify("server_key.pem", "client");
        p.send(H::CertificateVerify, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("signature over a transcript without the certificate", false, |mut p| {
        p.send(H::EncryptedExtensions, vec![0, 0]);
        let b = p.cert_verify("server_key.pem", "server");
        p.send(H::Certificate, cert("server.pem").get_certificate_for_handshake(vec![0]));
        p.send(H::CertificateVerify, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("signature replayed from another handshake", false, |mut p| {
        let mut ts = p.suite.get_tshash().unwrap();
        ts.update(b"something else");
        let keep = std::mem::replace(&mut p.ts, ts);
        let b = p.cert_verify("server_key.pem", "server");
        p.ts = keep;
        p.send_ee_cert("server.pem");
        p.send(H::CertificateVerify, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("no certificate verify", false, |mut p| {
        p.send_ee_cert("server.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("no certificate at all", false, |mut p| {
        p.send(H::EncryptedExtensions, vec![0, 0]);
        p.send_finished();
        drain(p)
    }));
    cases.push(("empty certificate list", false, |mut p| {
        p.send(H::EncryptedExtensions, vec![0, 0]);
        p.send(H::Certificate, vec![0, 0, 0, 0]);
        p.send_cv("server_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("signature length that does not match", false, |mut p| {
        p.send_ee_cert("server.pem");
        let mut b = p.cert_verify("server_key.pem", "server");
        b[3] += 1;
        b.push(0);
        p.send(H::CertificateVerify, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("garbage signature", false, |mut p| {
        p.send_ee_cert("server.pem");
        p.send(H::CertificateVerify, vec![4, 3, 0, 4, 1, 2, 3, 4]);
        p.send_finished();
        drain(p)
    }));
    cases.push(("bad signature, finished without it", false, |mut p| {
        p.send(H::EncryptedExtensions, vec![0, 0]);
        p.send_cert_request(&[9]);
        p.send(H::Certificate, cert("server.pem").get_certificate_for_handshake(vec![0]));
        let b = p.cert_verify("client_key.pem", "server");
        let m = anothertls::net::handshake::Handshake::to_bytes(H::CertificateVerify, b);
        p.send_untracked(RecordType::Handshake, &m);
        p.send_finished();
        drain(p)
    }));
    cases.push(("a scheme the client cannot verify", false, |mut p| {
        p.send_ee_cert("server.pem");
        let mut b = p.cert_verify("client_key.pem", "server");
        b[0] = 5;
        b[1] = 3;
        p.send(H::CertificateVerify, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("another scheme the client cannot verify", false, |mut p| {
        p.send_ee_cert("server.pem");
        let mut b = p.cert_verify("client_key.pem", "server");
        b[0] = 8;
        b[1] = 4;
        p.send(H::CertificateVerify, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("a certificate without a usable key", false, |mut p| {
        p.send_ee_cert("odd.pem");
        p.send_cv("client_key.pem");
        p.send_finished();
        drain(p)
    }));
    for (name, f) in [
        ("wrong finished", (|mut b: Vec<u8>| { b[0] ^= 1; b }) as fn(Vec<u8>) -> Vec<u8>),
        ("finished with a wrong last byte", |mut b| { let n = b.len(); b[n - 1] ^= 0x80; b }),
        ("finished with a wrong middle byte", |mut b| { b[17] ^= 0x10; b }),
        ("finished cut to nothing", |_| vec![]),
        ("finished cut short", |mut b| { b.truncate(12); b }),
        ("finished extended", |mut b| { b.push(0); b }),
    ] {
        for creq in [false, true] {
            if !want.is_empty() && !name.contains(&want) {
                continue;
            }
            let r = client_vs(client_config().build().unwrap(), move |mut p| {
                p.send(H::EncryptedExtensions, vec![0, 0]);
                if creq {
                    p.send_cert_request(&[7]);
                }
                p.send(H::Certificate, cert("server.pem").get_certificate_for_handshake(vec![0]));
                p.send_cv("server_key.pem");
                let b = f(p.own_finished());
                p.send(H::Finished, b);
                drain(p)
            });
            check(!r.0 && !r.1.contains("LEAK"), &format!("{name} (request: {creq}): {}", r.1));
        }
    }
    for (name, ok, f) in cases {
        if !want.is_empty() && !name.contains(&want) {
            continue;
        }
        for auth in [false, true] {
            let mut c = client_config();
            if auth {
                c = c.add_client_cert_pem(p("client.pem")).add_client_key_pem(p("client_key.pem"));
            }
            let r = client_vs(c.build().unwrap(), f);
            check(if ok { r.0 && r.1.contains("GOOD") } else { !r.0 && !r.1.contains("LEAK") }, &format!("{name} (client certificate: {auth}): {}", r.1));
        }
    }
}
