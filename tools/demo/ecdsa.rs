mod evil;
use anothertls::crypto::ellipticcurve::{Ecdsa, Signature};
use anothertls::hash::sha256;
use anothertls::net::handshake::Certificate;
use evil::*;
fn main() {
    let k = key("server_key.pem");
    let h = sha256(b"message");
    let n = k.curve.n.clone();
    let public = || Certificate::from_raw_x509(cert("server.pem").raw).unwrap().x509.as_ref().unwrap().get_public_key().unwrap();
    let mut tried = 0;
    for _ in 0..3 {
        let sg = Ecdsa::urandom().sign(&k, &h).unwrap();
        check(Ecdsa::verify(public(), &sg, &h), "a valid signature is accepted");
        for (dr, ds) in [(0, 1), (1, 0), (1, 1)] {
            let f = Signature::new(&sg.s + ibig::IBig::from(ds) * &n, &sg.r + ibig::IBig::from(dr) * &n);
            check(!Ecdsa::verify(public(), &f, &h), "components plus the order are refused");
            tried += 1;
        }
        for bit in [0u32, 100, 130, 200, 250] {
            let f = Signature::new(sg.s.clone(), flip(&sg.r, bit));
            check(!Ecdsa::verify(public(), &f, &h), "a changed first component is refused");
        }
    }
    println!("{tried}");
}
fn flip(x: &ibig::IBig, bit: u32) -> ibig::IBig {
    let b = ibig::IBig::from(1) << (bit as usize);
    if (x / &b) % ibig::IBig::from(2) == ibig::IBig::from(1) { x - b } else { x + b }
}
