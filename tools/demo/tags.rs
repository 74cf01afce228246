mod evil;
use anothertls::crypto::aes::gcm::Gcm;
use anothertls::crypto::chacha20::Poly1305;
use anothertls::crypto::{Cipher, CipherSuite};
use evil::check;
fn main() {
    let (iv, pt, ad) = ([3u8; 12], b"some plaintext".to_vec(), b"header".to_vec());
    let all: Vec<(Box<dyn Cipher>, usize)> = vec![
        (Box::new(Gcm::new(CipherSuite::TLS_AES_128_GCM_SHA256)), 16),
        (Box::new(Gcm::new(CipherSuite::TLS_AES_256_GCM_SHA384)), 32),
        (Box::new(Poly1305()), 32),
    ];
    for (c, n) in all {
        let key = vec![9u8; n];
        let (ct, tag) = c.encrypt(&key, &iv, &pt, &ad).unwrap();
        check(c.decrypt(&key, &iv, &ct, &ad, &tag).unwrap() == pt, "the right tag is accepted");
        for i in 0..16 {
            for j in 0..16 {
                let mut t = tag;
                t[i] ^= 0x80;
                if i != j {
                    t[j] ^= 0x80;
                }
                check(c.decrypt(&key, &iv, &ct, &ad, &t).is_err(), &format!("a tag that differs in bytes {i} and {j} is refused"));
            }
        }
    }
}
