//! An AnotherTLS server against clients that do, and do not, prove who they are.
mod evil;
use anothertls::net::handshake::HandshakeType as H;
use evil::*;

fn drain(mut p: Peer) -> String {
    let r = p.recv();
    p.end();
    format!("{r:?}")
}
fn start(p: &mut Peer) -> Vec<u8> {
    p.read_server_flight().unwrap().unwrap_or_default()
}

fn main() {
    let mut cases: Vec<(&str, bool, fn(Peer) -> String)> = vec![];
    cases.push(("honest", true, |mut p| {
        let c = start(&mut p);
        let b = p.client_cert_body(&c, "client.pem");
        p.send(H::Certificate, b);
        p.send_cv("client_key.pem");
        p.send_finished();
        "".into()
    }));
    cases.push(("no certificate message", false, |mut p| {
        start(&mut p);
        p.send_finished();
        drain(p)
    }));
    cases.push(("empty certificate list", false, |mut p| {
        let c = start(&mut p);
        let mut b = vec![c.len() as u8];
        b.extend(c);
        b.extend([0, 0, 0]);
        p.send(H::Certificate, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("another CA", false, |mut p| {
        let c = start(&mut p);
        let b = p.client_cert_body(&c, "client2.pem");
        p.send(H::Certificate, b);
        p.send_cv("client2_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("self-signed", false, |mut p| {
        let c = start(&mut p);
        let b = p.client_cert_body(&c, "server.pem");
        p.send(H::Certificate, b);
        p.send_cv("server_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("stolen certificate, other key", false, |mut p| {
        let c = start(&mut p);
        let b = p.client_cert_body(&c, "client.pem");
        p.send(H::Certificate, b);
        p.send_cv("client2_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("stolen certificate, no verify", false, |mut p| {
        let c = start(&mut p);
        let b = p.client_cert_body(&c, "client.pem");
        p.send(H::Certificate, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("server's label", false, |mut p| {
        let c = start(&mut p);
        let b = p.client_cert_body(&c, "client.pem");
        p.send(H::Certificate, b);
        let b = p.cert_verify("client_key.pem", "server");
        p.send(H::CertificateVerify, b);
        p.send_finished();
        drain(p)
    }));
    cases.push(("signature made before the certificate", false, |mut p| {
        let c = start(&mut p);
        let v = p.cert_verify("client_key.pem", "client");
        let b = p.client_cert_body(&c, "client.pem");
        p.send(H::Certificate, b);
        p.send(H::CertificateVerify, v);
        p.send_finished();
        drain(p)
    }));
    cases.push(("another request context", false, |mut p| {
        let mut c = start(&mut p);
        let n = c.len();
        c[n - 1] ^= 1;
        let b = p.client_cert_body(&c, "client.pem");
        p.send(H::Certificate, b);
        p.send_cv("client_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("empty request context", false, |mut p| {
        start(&mut p);
        let b = p.client_cert_body(&[], "client.pem");
        p.send(H::Certificate, b);
        p.send_cv("client_key.pem");
        p.send_finished();
        drain(p)
    }));
    cases.push(("two certificate verifies, the first bad", false, |mut p| {
        let c = start(&mut p);
        let b = p.client_cert_body(&c, "client.pem");
        p.send(H::Certificate, b);
        let bad = p.cert_verify("client2_key.pem", "client");
        p.send(H::CertificateVerify, bad);
        p.send_cv("client_key.pem");
        p.send_finished();
        drain(p)
    }));
    let bad: Vec<(&str, fn(Vec<u8>) -> Vec<u8>)> = vec![
        ("wrong finished", |mut b| { b[0] ^= 1; b }),
        ("finished with a wrong last byte", |mut b| { let n = b.len(); b[n - 1] ^= 0x80; b }),
        ("finished with a wrong middle byte", |mut b| { b[17] ^= 0x10; b }),
        ("finished cut to nothing", |_| vec![]),
        ("finished cut short", |mut b| { b.truncate(12); b }),
        ("finished extended", |mut b| { b.push(0); b }),
    ];
    for (name, f) in bad {
        for auth in [false, true] {
            let mut cfg = server_config();
            if auth {
                cfg = cfg.add_client_cert_ca(p("ca.pem"));
            }
            let r = server_vs(cfg.build().unwrap(), move |mut p| {
                let c = p.read_server_flight().unwrap();
                if let Some(c) = c {
                    let b = p.client_cert_body(&c, "client.pem");
                    p.send(H::Certificate, b);
                    p.send_cv("client_key.pem");
                }
                let b = f(p.own_finished());
                p.send(H::Finished, b);
                drain(p)
            });
            check(!r.0, &format!("{name} (client auth {auth}): {}", r.1));
        }
    }
    for (name, ok, f) in cases {
        for v in [0, 1, 2] {
            let mut c = server_config().add_client_cert_ca(p("ca.pem"));
            if v == 1 {
                c = c.set_client_cert_custom_verify_fn(|_| true);
            }
            if v == 2 {
                c = c.set_client_cert_custom_verify_fn(|_| false);
            }
            let r = server_vs(c.build().unwrap(), f);
            check(r.0 == (ok && v != 2), &format!("{name} (custom verify {v}): {}", r.1));
        }
    }
    let r = server_vs(server_config().build().unwrap(), |mut p| {
        start(&mut p);
        p.send_finished();
        "".into()
    });
    check(r.0, &format!("no client authentication: {}", r.1));
}
