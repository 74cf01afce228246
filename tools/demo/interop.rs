//! AnotherTLS against OpenSSL: every cipher suite, both roles, data of many sizes, key logs.
mod evil;
use evil::*;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Command, Stdio};
use std::time::Duration;

const SUITES: [&str; 3] = ["TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256"];

fn pattern(n: usize, seed: u32) -> Vec<u8> {
    // no line ends: s_client would act on some letters at the start of a line
    let mut x = seed;
    (0..n).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); b'0' + ((x >> 24) % 10) as u8 }).collect()
}
fn sizes() -> Vec<usize> {
    vec![1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 2049, 5000, 16000]
}
fn keylines(path: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_to_string(path).unwrap_or_default().lines()
        .filter(|l| l.starts_with("SERVER_") || l.starts_with("CLIENT_")).map(|l| l.to_lowercase()).collect();
    v.sort();
    v
}
fn read_all(s: &mut anothertls::net::TlsStream, n: usize) -> Vec<u8> {
    let mut got = vec![];
    let mut buf = [0u8; 20000];
    while got.len() < n {
        match s.tls_read(&mut buf) {
            Ok(k) => got.extend_from_slice(&buf[..k]),
            Err(e) => { println!("tls_read: {e:?}"); break }
        }
    }
    got
}

fn main() {
    let tmp = std::env::temp_dir().join(format!("interop{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let t = |n: &str| tmp.join(n).to_str().unwrap().to_string();
    let mut fails = 0;
    let mut chk = |ok: bool, w: String| { println!("{} {w}", if ok { "ok  " } else { "FAIL" }); if !ok { fails += 1 } };
    for (i, suite) in SUITES.iter().enumerate() {
        for auth in [false, true] {
            // AnotherTLS server
            let (k1, k2) = (t(&format!("a{i}{auth}")), t(&format!("b{i}{auth}")));
            let l = TcpListener::bind("127.0.0.1:0").unwrap();
            let port = l.local_addr().unwrap().port();
            let mut cfg = server_config().set_keylog_path(k1.clone());
            if auth { cfg = cfg.add_client_cert_ca(p("ca.pem")); }
            let cfg = cfg.build().unwrap();
            let h = std::thread::spawn(move || {
                let (mut s, _) = anothertls::ServerConnection::new(l, cfg).accept().map_err(|e| format!("{e:?}"))?;
                let mut ok = true;
                for (j, n) in sizes().iter().enumerate() {
                    s.tls_write(&pattern(*n, j as u32)).map_err(|e| format!("{e:?}"))?;
                }
                let mut all = vec![];
                for (j, n) in sizes().iter().enumerate() { all.extend(pattern(*n, 1000 + j as u32)); }
                ok &= read_all(&mut s, all.len()) == all;
                Ok::<bool, String>(ok)
            });
            let mut c = Command::new("openssl");
            c.args(["s_client", "-connect", &format!("127.0.0.1:{port}"), "-tls1_3", "-ciphersuites", suite, "-quiet", "-nocommands", "-keylogfile", &k2]);
            if auth { c.args(["-cert", &p("client.pem"), "-key", &p("client_key.pem")]); }
            let mut c = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
            let mut stdin = c.stdin.take().unwrap();
            let w = std::thread::spawn(move || {
                for (j, n) in sizes().iter().enumerate() {
                    let _ = stdin.write_all(&pattern(*n, 1000 + j as u32));
                    let _ = stdin.flush();
                    std::thread::sleep(Duration::from_millis(20));
                }
                stdin
            });
            let mut want = vec![];
            for (j, n) in sizes().iter().enumerate() { want.extend(pattern(*n, j as u32)); }
            let mut got = vec![0u8; want.len()];
            let r = c.stdout.take().unwrap().read_exact(&mut got);
            let keep = w.join();
            let sv = h.join();
            drop(keep);
            let _ = c.kill();
            let _ = c.wait();
            chk(r.is_ok() && got == want, format!("server, {suite}, client auth {auth}: data to OpenSSL"));
            chk(matches!(sv, Ok(Ok(true))), format!("server, {suite}, client auth {auth}: data from OpenSSL {sv:?}"));
            let (a, b) = (keylines(&k1), keylines(&k2));
            chk(a == b && a.len() == 4, format!("server, {suite}, client auth {auth}: key log"));

            // AnotherTLS client
            let (k1, k2) = (t(&format!("c{i}{auth}")), t(&format!("d{i}{auth}")));
            let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
            let mut c = Command::new("openssl");
            c.args(["s_server", "-accept", &format!("127.0.0.1:{port}"), "-tls1_3", "-ciphersuites", suite, "-quiet", "-num_tickets", "0", "-naccept", "1",
                "-cert", &p("server.pem"), "-key", &p("server_key.pem"), "-keylogfile", &k2]);
            if auth { c.args(["-Verify", "2", "-verify_return_error", "-CAfile", &p("ca.pem")]); }
            let mut c = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
            let mut sock = None;
            for _ in 0..200 {
                std::thread::sleep(Duration::from_millis(20));
                if let Ok(s) = TcpStream::connect(("127.0.0.1", port)) { sock = Some(s); break; }
            }
            let sock = sock.unwrap();
            sock.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
            let mut cfg = client_config().set_keylog_path(k1.clone());
            if auth { cfg = cfg.add_client_cert_pem(p("client.pem")).add_client_key_pem(p("client_key.pem")); }
            let cfg = cfg.build().unwrap();
            let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| anothertls::ClientConnection::connect(sock, &cfg)));
            let mut good = false;
            let mut up = false;
            if let Ok(Ok(mut s)) = s {
                let mut stdin = c.stdin.take().unwrap();
                let w = std::thread::spawn(move || {
                    for (j, n) in sizes().iter().enumerate() {
                        let _ = stdin.write_all(&pattern(*n, 1000 + j as u32));
                        let _ = stdin.flush();
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    stdin
                });
                let mut all = vec![];
                for (j, n) in sizes().iter().enumerate() {
                    let _ = s.tls_write(&pattern(*n, j as u32));
                    all.extend(pattern(*n, 1000 + j as u32));
                }
                let mut got = vec![0u8; want.len()];
                up = c.stdout.take().unwrap().read_exact(&mut got).is_ok() && got == want;
                good = read_all(&mut s, all.len()) == all;
                drop(w.join());
            }
            let _ = c.kill();
            let _ = c.wait();
            chk(up, format!("client, {suite}, client auth {auth}: data to OpenSSL"));
            chk(good, format!("client, {suite}, client auth {auth}: data from OpenSSL"));
            let (a, b) = (keylines(&k1), keylines(&k2));
            chk(a == b && a.len() == 4, format!("client, {suite}, client auth {auth}: key log"));
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    if fails > 0 { std::process::exit(1) }
}
