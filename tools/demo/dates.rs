mod evil;
use anothertls::net::handshake::Certificate;
use evil::*;
// the UTCTime of an instant
fn utc(t: i64) -> String {
    let (d, s) = (t.div_euclid(86400), t.rem_euclid(86400));
    let z = d + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (day, month) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    let year = yoe + era * 400 + if month <= 2 { 1 } else { 0 };
    format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", year % 100, month, day, s / 3600, s / 60 % 60, s % 60)
}
fn with(a: i64, b: i64) -> bool {
    let mut raw = cert("client.pem").raw;
    let mut n = 0;
    for i in 0..raw.len() - 15 {
        if raw[i] == 0x17 && raw[i + 1] == 13 {
            let t = utc(if n == 0 { a } else { b });
            raw[i + 2..i + 15].copy_from_slice(t.as_bytes());
            n += 1;
        }
    }
    check(n == 2, "two dates");
    Certificate::from_raw_x509(raw).unwrap().x509.as_ref().unwrap().tbs_certificate.validity.is_valid()
}
fn main() {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    let (h, d) = (3600, 86400);
    check(with(now - d, now + d), "valid now");
    check(!with(now + 2 * d, now + 9 * d), "not yet valid: in two days");
    check(!with(now + h, now + 9 * d), "not yet valid: in an hour");
    check(!with(now - 9 * d, now - 2 * d), "expired two days ago");
    check(!with(now - 9 * d, now - 2), "expired just now");
}
