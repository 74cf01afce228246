mod evil;
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::utils::bytes::{self, ByteOrder};
use evil::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};

struct Hello {
    suites: Vec<u16>,
    versions: Vec<u16>,
    schemes: Vec<u16>,
    groups: Vec<u16>,
    extra: Vec<u8>,
}
fn good() -> Hello {
    Hello { suites: vec![0x1301], versions: vec![0x0304], schemes: vec![0x0403], groups: vec![29], extra: vec![] }
}
fn raw(h: &Hello) -> Vec<u8> {
    let list = |l: &[u16]| l.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>();
    let mut body = vec![3, 3];
    body.extend([7u8; 32]);
    body.push(0);
    body.extend((h.suites.len() as u16 * 2).to_be_bytes());
    body.extend(list(&h.suites));
    body.extend([1, 0]);
    let mut ext = h.extra.clone();
    let mut put = |t: u16, b: Vec<u8>| {
        ext.extend(t.to_be_bytes());
        ext.extend((b.len() as u16).to_be_bytes());
        ext.extend(b);
    };
    let mut v = vec![h.versions.len() as u8 * 2];
    v.extend(list(&h.versions));
    put(43, v);
    let mut v = (h.schemes.len() as u16 * 2).to_be_bytes().to_vec();
    v.extend(list(&h.schemes));
    put(13, v);
    let mut shares = vec![];
    for g in &h.groups {
        shares.extend(g.to_be_bytes());
        shares.extend([0, 32]);
        shares.extend([9u8; 32]);
    }
    let mut v = (shares.len() as u16).to_be_bytes().to_vec();
    v.extend(shares);
    put(51, v);
    body.extend((ext.len() as u16).to_be_bytes());
    body.extend(ext);
    let mut hs = vec![1, 0, (body.len() >> 8) as u8, body.len() as u8];
    hs.extend(body);
    let mut rec = vec![22, 3, 1, (hs.len() >> 8) as u8, hs.len() as u8];
    rec.extend(hs);
    rec
}
/// what the server sends back
fn answer(h: &Hello) -> Vec<u8> {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let cfg = server_config().build().unwrap();
    std::thread::spawn(move || {
        let _ = anothertls::ServerConnection::new(l, cfg).accept();
    });
    let mut s = TcpStream::connect(a).unwrap();
    s.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
    s.write_all(&raw(h)).unwrap();
    s.shutdown(Shutdown::Write).unwrap();
    let mut v = vec![];
    let _ = s.read_to_end(&mut v);
    v
}
fn accepted(v: &[u8]) -> bool {
    v.len() > 80 && v[0] == 22 && v[5] == 2
}
fn refused(v: &[u8]) -> bool {
    v.len() == 7 && v[0] == 21
}
fn main() {
    let v = answer(&good());
    check(accepted(&v), "a proper hello is answered");
    check(v[11..43] != [7; 32], "the server's random is its own");
    let w = answer(&good());
    check(v[11..43] != w[11..43], "the server's random is fresh");
    // no session id: type, length, version, random, 0, suite, compression, extensions
    let share = |v: &[u8]| {
        let i = (44..v.len() - 40).find(|&i| v[i..i + 4] == [0, 51, 0, 36]).unwrap();
        v[i + 8..i + 40].to_vec()
    };
    check(share(&v) != share(&w), "the server's key share is fresh");
    for big in [true, false] {
        let x = &v[11..43];
        let s = if big { bytes::to_ibig_be(x) } else { bytes::to_ibig_le(x) };
        let pk = PrivateKey::new(Curve::curve25519(), s).get_public_key();
let mut p = bytes::ibig_to_32bytes(pk.point.x, ByteOrder::Little).to_vec();
        let same = p == share(&v);
        p.reverse();
        check(!same && p != share(&v), "the server's random does not reveal its key");
    }
    for (i, (ver, ok)) in [(vec![0x0303], false), (vec![0x0303, 0x0304], true), (vec![0x7a7a, 0x0303], false), (vec![0x0305], false), (vec![0x7f1c], false), (vec![0x1a1a, 0x0304], true), (vec![0x0303, 0x0403], false)].into_iter().enumerate() {
        let v = answer(&Hello { versions: ver, ..good() });
        check(if ok { accepted(&v) } else { refused(&v) }, &format!("versions {i}"));
    }
    for (i, (s, ok)) in [(vec![0x00ff], false), (vec![0x00ff, 0x1303], true), (vec![0x1302], true), (vec![0x1302, 0x00ff], true)].into_iter().enumerate() {
        let v = answer(&Hello { suites: s.clone(), ..good() });
        check(if ok { accepted(&v) } else { refused(&v) }, &format!("suites {i}"));
        if ok {
            let n = u16::from_be_bytes([v[44], v[45]]);
            check(s.contains(&n) && n != 0xff, "the suite was offered");
        }
    }
    for (i, (s, ok)) in [(vec![0x0503], false), (vec![0x0804], false), (vec![0x0503, 0x0403], true)].into_iter().enumerate() {
        let v = answer(&Hello { schemes: s, ..good() });
        check(if ok { accepted(&v) } else { refused(&v) }, &format!("schemes {i}"));
    }
    for (i, (s, ok)) in [(vec![30], false), (vec![23, 29], true)].into_iter().enumerate() {
        let v = answer(&Hello { groups: s, ..good() });
        check(if ok { accepted(&v) } else { refused(&v) }, &format!("groups {i}"));
    }
    for n in [0u16, 5] {
        let mut e = vec![0xfa, 0xfa];
        e.extend(n.to_be_bytes());
        e.extend(vec![0; n as usize]);
        check(accepted(&answer(&Hello { extra: e, ..good() })), &format!("an unknown extension of {n} bytes is passed over"));
    }
}
