mod evil;
use anothertls::net::key_schedule::*;
use anothertls::hash::{HashType, Hkdf};
use evil::check;
fn main() {
    for iv in [[0u8; 12], [0xff; 12], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]] {
        let h = Hkdf::from_prk(HashType::SHA256, vec![1; 32]);
        let mut k = Key::from_hkdf(&h, 16, 12).unwrap();
        k.iv = iv;
        let mut seen = std::collections::HashSet::new();
        for i in 0..70000 {
            check(seen.insert(k.get_per_record_nonce()), &format!("the nonce of record {i} is new"));
        }
    }
}
