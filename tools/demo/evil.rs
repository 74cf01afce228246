//! A TLS 1.3 peer that is driven message by message, built from AnotherTLS' public parts.
#![allow(dead_code)]
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::hash::TranscriptHash;
use anothertls::net::client::{ClientConfig, ClientHello};
use anothertls::net::extensions::{
    ClientExtension, KeyShare, KeyShareEntry, NamedGroup, SignatureAlgorithms, SignatureScheme,
    SupportedGroups, SupportedVersions,
};
use anothertls::net::handshake::{get_verify_data_for_finished, Certificate, Handshake, HandshakeType};
use anothertls::net::record::{Record, RecordPayloadProtection, RecordType};
use anothertls::net::server::{ServerConfig, ServerHello};
use anothertls::net::{KeySchedule, TlsStream};
use anothertls::rand::{RngCore, URandomRng};
use anothertls::utils::bytes::{self, ByteOrder};
use anothertls::{ClientConfigBuilder, ServerConfigBuilder};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

pub fn dir() -> String {
    std::env::var("DEMO_DIR").unwrap()
}
pub fn p(name: &str) -> String {
    format!("{}/{}", dir(), name)
}
pub fn server_config() -> ServerConfigBuilder {
    ServerConfigBuilder::new().add_cert_pem(p("server.pem")).add_privkey_pem(p("server_key.pem"))
}
pub fn client_config() -> ClientConfigBuilder {
    ClientConfigBuilder::new().set_server_name("localhost".into())
}
pub fn key(name: &str) -> PrivateKey {
    PrivateKey::from_pem(p(name)).unwrap()
}
pub fn cert(name: &str) -> Certificate {
    Certificate::from_pem(p(name)).unwrap()
}

/// Run `client` and `server` on the two ends of a loopback connection.
pub fn pair<A: Send + 'static, B: Send + 'static>(
    client: impl FnOnce(TcpStream) -> A + Send + 'static,
    server: impl FnOnce(TcpListener) -> B + Send + 'static,
) -> (Option<A>, Option<B>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let b = std::thread::spawn(move || server(l));
    let a = std::thread::spawn(move || {
        let s = TcpStream::connect(addr).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(40))).unwrap();
        client(s)
    });
    (a.join().ok(), b.join().ok())
}
pub fn accept(l: &TcpListener) -> TcpStream {
    let s = l.accept().unwrap().0;
    s.set_read_timeout(Some(Duration::from_secs(40))).unwrap();
    s
}

pub struct Peer {
    pub s: TlsStream,
    pub sock: TcpStream,
    pub ts: Box<dyn TranscriptHash>,
    pub ch: Vec<u8>,
    pub sh: Vec<u8>,
    pub suite: anothertls::crypto::CipherSuite,
    server: bool,
    pending: Vec<u8>,
    pub records: usize,
}
type Msg = Result<(u8, Vec<u8>), String>;

impl Peer {
    /// As a server: take the ClientHello, answer with a ServerHello, derive the handshake keys.
    pub fn server(sock: TcpStream) -> Peer {
        let dup = sock.try_clone().unwrap();
        let mut s = TlsStream::new(sock);
        let raw = s.read_record().unwrap();
        let ch = raw[5..].to_vec();
        let cfg: ServerConfig = server_config().build().unwrap();
        let hs = Handshake::from_raw(&ch).unwrap();
        let hello = ClientHello::from_raw(hs.fraqment).unwrap();
        let mut rng = URandomRng::new();
        let (sh, pk) = ServerHello::from_client_hello(&hello, &mut rng, &cfg).unwrap();
        let suite = sh.cipher_suite;
        let shraw = Handshake::to_bytes(HandshakeType::ServerHello, sh.as_bytes());
        let mut ts = suite.get_tshash().unwrap();
        ts.update(&ch);
        ts.update(&shraw);
        s.write_record(RecordType::Handshake, &shraw).unwrap();
        s.flush().unwrap();
        let ks = KeySchedule::from_handshake(ts.as_ref(), &pk, hello.get_public_key_share().unwrap()).unwrap();
        s.set_protection(RecordPayloadProtection::new(ks, suite.get_cipher().unwrap(), false));
        drop(hello);
        Peer { s, sock: dup, ts, ch: ch.clone(), sh: shraw.clone(), suite, server: true, pending: vec![], records: 0 }
    }
    /// As a client: send a ClientHello, take the ServerHello, derive the handshake keys.
    pub fn client(sock: TcpStream, suites: Option<Vec<anothertls::crypto::CipherSuite>>) -> Peer {
        let dup = sock.try_clone().unwrap();
        let mut s = TlsStream::new(sock);
        let mut rng = URandomRng::new();
        let pk = PrivateKey::new(Curve::curve25519(), rng.between(1, 32));
        let random = rng.bytes(32);
        let sid = rng.bytes(32);
        let mut hello = ClientHello::new(&random, Some(&sid)).unwrap();
        if let Some(x) = suites {
            hello.cipher_suites = x;
        }
        let share = bytes::ibig_to_32bytes(pk.get_public_key().point.x, ByteOrder::Little);
        hello.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, share.to_vec()))));
        hello.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
        hello.extensions.push(ClientExtension::SignatureAlgorithms(SignatureAlgorithms::new(SignatureScheme::ecdsa_secp256r1_sha256)));
        hello.extensions.push(ClientExtension::SupportedGroups(SupportedGroups::supported()));
        let ch = Handshake::to_bytes(HandshakeType::ClientHello, hello.as_bytes().unwrap());
        s.write_record(RecordType::Handshake, &ch).unwrap();
        s.flush().unwrap();
        let raw = s.read_record().unwrap();
        assert_eq!(raw[0], 22, "no ServerHello");
        let sh = raw[5..].to_vec();
        let hs = Handshake::from_raw(&sh).unwrap();
        let server_hello = ServerHello::from_raw(hs.fraqment).unwrap();
        let suite = server_hello.cipher_suite;
        let mut ts = suite.get_tshash().unwrap();
        ts.update(&ch);
        ts.update(&sh);
        let ks = KeySchedule::from_handshake(ts.as_ref(), &pk, server_hello.get_public_key_share().unwrap()).unwrap();
        s.set_protection(RecordPayloadProtection::new(ks, suite.get_cipher().unwrap(), true));
        drop(server_hello);
        Peer { s, sock: dup, ts, ch, sh: sh.clone(), suite, server: false, pending: vec![], records: 0 }
    }

    pub fn send(&mut self, typ: HandshakeType, body: Vec<u8>) {
        let m = Handshake::to_bytes(typ, body);
        self.ts.update(&m);
        let _ = self.s.write_record(RecordType::Handshake, &m);
        let _ = self.s.flush();
    }
    pub fn send_untracked(&mut self, rt: RecordType, data: &[u8]) {
        let _ = self.s.write_record(rt, data);
        let _ = self.s.flush();
    }
    /// The next record, decrypted.
    pub fn record(&mut self) -> Result<(RecordType, Vec<u8>), String> {
        loop {
            let raw = self.s.read_record().map_err(|e| format!("closed {e:?}"))?;
            self.records += 1;
            if raw[0] == 20 {
                continue;
            }
            if raw[0] == 21 {
                return Err(format!("clear alert {}", raw[6]));
            }
            let (_, r) = Record::from_raw(&raw).unwrap();
            let (t, d) = self.s.protection.as_mut().unwrap().decrypt(r).map_err(|e| format!("decrypt {e:?}"))?;
            if t == RecordType::Alert {
                return Err(format!("alert {}", d[1]));
            }
            return Ok((t, d));
        }
    }
    /// The next handshake message (added to the transcript).
    pub fn recv(&mut self) -> Msg {
        let (t, body) = self.recv_untracked()?;
        let l = body.len();
        let mut m = vec![t, (l >> 16) as u8, (l >> 8) as u8, l as u8];
        m.extend_from_slice(&body);
        self.ts.update(&m);
        Ok((t, body))
    }
    pub fn recv_untracked(&mut self) -> Msg {
        while self.pending.is_empty() {
            let (t, d) = self.record()?;
            if t != RecordType::Handshake {
                return Err(format!("record {t:?}"));
            }
            self.pending = d;
        }
        let l = ((self.pending[1] as usize) << 16) | ((self.pending[2] as usize) << 8) | self.pending[3] as usize;
        let rest = self.pending.split_off(4 + l);
        let m = std::mem::replace(&mut self.pending, rest);
        Ok((m[0], m[4..].to_vec()))
    }
    pub fn own_finished(&self) -> Vec<u8> {
        self.finished(self.server)
    }
    pub fn peer_finished(&self) -> Vec<u8> {
        self.finished(!self.server)
    }
    fn finished(&self, server: bool) -> Vec<u8> {
        let ks = &self.s.protection.as_ref().unwrap().key_schedule;
        let sec = if server { &ks.server_handshake_traffic_secret } else { &ks.client_handshake_traffic_secret };
        get_verify_data_for_finished(sec, self.ts.as_ref()).unwrap()
    }
    pub fn cert_verify(&self, keyfile: &str, label: &str) -> Vec<u8> {
        cert("server.pem").get_certificate_verify_for_handshake(&key(keyfile), self.ts.as_ref(), label.as_bytes()).unwrap()
    }
    pub fn app_keys(&mut self, ts: &dyn TranscriptHash) {
        self.s.protection.as_mut().unwrap().generate_application_keys(ts).unwrap();
    }
    /// EncryptedExtensions and a Certificate with this name
    pub fn send_ee_cert(&mut self, name: &str) {
        self.send(HandshakeType::EncryptedExtensions, vec![0, 0]);
        self.send(HandshakeType::Certificate, cert(name).get_certificate_for_handshake(vec![0]));
    }
    pub fn send_cert_request(&mut self, ctx: &[u8]) {
        let c = Certificate::from_pem_x509(p("ca.pem")).unwrap();
        self.send(HandshakeType::CertificateRequest, c.get_certificate_request(ctx));
    }
    pub fn send_cv(&mut self, keyfile: &str) {
        let b = self.cert_verify(keyfile, if self.server { "server" } else { "client" });
        self.send(HandshakeType::CertificateVerify, b);
    }
    pub fn send_finished(&mut self) {
        let b = self.own_finished();
        self.send(HandshakeType::Finished, b);
    }
    /// everything the server sends up to its Finished; returns the certificate request context
    pub fn read_server_flight(&mut self) -> Result<Option<Vec<u8>>, String> {
        let mut ctx = None;
        loop {
            let want = self.peer_finished();
            let (t, b) = self.recv()?;
            if t == 13 {
                ctx = Some(b[1..1 + b[0] as usize].to_vec());
            }
            if t == 20 {
                if b != want {
                    return Err("bad server finished".into());
                }
                return Ok(ctx);
            }
        }
    }
    pub fn client_cert_body(&self, ctx: &[u8], name: &str) -> Vec<u8> {
        let mut b = vec![ctx.len() as u8];
        b.extend_from_slice(ctx);
        cert(name).get_certificate_for_handshake(b)
    }
    pub fn end(&mut self) {
        let _ = self.sock.shutdown(std::net::Shutdown::Both);
    }
}

/// connect an AnotherTLS client to an evil server
pub fn client_vs(cfg: ClientConfig, evil: impl FnOnce(Peer) -> String + Send + 'static) -> (bool, String) {
    let (a, b) = pair(
        move |s| anothertls::ClientConnection::connect(s, &cfg).map(|_| ()).map_err(|e| format!("{e:?}")),
        move |l| evil(Peer::server(accept(&l))),
    );
    let a = a.unwrap_or(Err("panic".into()));
    (a.is_ok(), format!("client: {a:?}; peer: {b:?}"))
}
/// connect an evil client to an AnotherTLS server
pub fn server_vs(cfg: ServerConfig, evil: impl FnOnce(Peer) -> String + Send + 'static) -> (bool, String) {
    let (b, a) = pair(
        move |s| evil(Peer::client(s, None)),
        move |l| anothertls::ServerConnection::new(l, cfg).accept().map(|_| ()).map_err(|e| format!("{e:?}")),
    );
    let a = a.unwrap_or(Err("panic".into()));
    (a.is_ok(), format!("server: {a:?}; peer: {b:?}"))
}

/// Forward bytes between two sockets through `f` (one call per TLS record, direction first).
pub fn proxy(a: TcpStream, b: TcpStream, mut f: impl FnMut(Vec<u8>) -> Vec<Vec<u8>>) {
    let mut a = a;
    let mut b = b;
    loop {
        let mut h = [0u8; 5];
        if a.read_exact(&mut h).is_err() {
            break;
        }
        let mut d = vec![0u8; ((h[3] as usize) << 8) | h[4] as usize];
        if a.read_exact(&mut d).is_err() {
            break;
        }
        let mut r = h.to_vec();
        r.append(&mut d);
        for x in f(r) {
            if b.write_all(&x).is_err() {
                return;
            }
        }
    }
    let _ = b.shutdown(std::net::Shutdown::Write);
}
pub fn check(ok: bool, what: &str) {
    println!("{} {}", if ok { "ok  " } else { "FAIL" }, what);
    if !ok {
        std::process::exit(1);
    }
}
