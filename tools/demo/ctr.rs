mod evil;
use anothertls::crypto::aes::gcm::Gcm;
use anothertls::crypto::{Cipher, CipherSuite};
use evil::check;
fn main() {
    let c = Gcm::new(CipherSuite::TLS_AES_128_GCM_SHA256);
    let (ct, _) = c.encrypt(&[9; 16], &[3; 12], &[0; 8192], &[]).unwrap();
    let mut seen = std::collections::HashSet::new();
    for (i, b) in ct.chunks(16).enumerate() {
        check(seen.insert(b.to_vec()), &format!("the keystream of block {i} is new"));
    }
}
