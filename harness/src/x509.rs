//! The format of certificate chains.
use crate::env::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::protocol::SpdmBaseAsymAlgo;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_x509_window", h_x509_window), ("h_x509_any", h_x509_any), ("h_x509_cut", h_x509_cut), ("h_x509_alg", h_x509_alg)];
use crate::x509v3::check_cert_chain_format;

const RSA: [u8; 8] = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01];
const EC: [u8; 7] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03];
fn algs() -> [(SpdmBaseAsymAlgo, Vec<u8>); 8] {
    let rsa = |n: u8| cat(&[&RSA, &[n]]);
    let ec = |n: u8| cat(&[&EC, &[n]]);
    [
        (SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256, ec(2)),
        (SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384, ec(3)),
        (SpdmBaseAsymAlgo::TPM_ALG_RSASSA_2048, rsa(11)),
        (SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_2048, rsa(11)),
        (SpdmBaseAsymAlgo::TPM_ALG_RSASSA_3072, rsa(12)),
        (SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_3072, rsa(12)),
        (SpdmBaseAsymAlgo::TPM_ALG_RSASSA_4096, rsa(13)),
        (SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_4096, rsa(13)),
    ]
}
/// Tag, length in one of the forms, contents.
fn tlv(tag: u8, form: usize, c: &[u8]) -> Vec<u8> {
    let l = c.len();
    let h: Vec<u8> = match form {
        0 if l < 0x80 => [tag, l as u8].to_vec(),
        0 if l < 0x100 => [tag, 0x81, l as u8].to_vec(),
        0 => [tag, 0x82, (l >> 8) as u8, l as u8].to_vec(),
        n => {
            let mut h = [tag, 0x80 | n as u8].to_vec();
            for i in (0..n).rev() {
                h.push(if i < 8 { (l as u64 >> (8 * i)) as u8 } else { 0 });
            }
            h
        }
    };
    cat(&[&h, c])
}
/// A certificate; what is long in it has `pad` bytes.
fn cert(oid: &[u8], form: usize, pad: usize) -> Vec<u8> {
    let alg = tlv(0x30, form, &tlv(6, 0, oid));
    let fill = [0x77u8; 300];
    let tbs = tlv(0x30, form, &cat(&[&[0xA0, 3, 2, 1, 2], &tlv(2, form, &[9]), &alg, &tlv(0x30, form, &fill[..pad]), &tlv(0x30, form, &[]), &tlv(0x30, form, &[5]), &tlv(0x30, form, &fill[..pad]), &[0xA3, 0]]));
    tlv(0x30, form, &cat(&[&tbs, &alg, &tlv(3, form, &fill[..pad])]))
}

// ---- what the format is: tag and contents with the rest behind it
fn split(d: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    if d.len() < 2 {
        return None;
    }
    let n = d[1] as usize;
    let (h, l) = if n < 0x80 {
        if n > d.len() - 2 {
            return None;
        }
        (2, conc(n))
    } else {
        if n == 0x80 || n > 0x88 || d.len() < 2 + n - 0x80 {
            return None;
        }
        let k = conc(n - 0x80);
        let mut l = 0u64;
        for i in 0..k {
            l = l << 8 | d[2 + i] as u64;
        }
        if l > (d.len() - 2 - k) as u64 {
            return None;
        }
        (2 + k, conc(l as usize))
    };
    if l > d.len() - h {
        return None;
    }
    Some((d[0], &d[h..h + l], &d[h + l..]))
}
fn seq(d: &[u8]) -> Option<(&[u8], &[u8])> {
    let (t, c, r) = split(d)?;
    if t == 0x30 {
        Some((c, r))
    } else {
        None
    }
}
fn alg_ok(c: &[u8], want: Option<&[u8]>) -> bool {
    if c.len() < 2 || c[0] != 6 || c[1] >= 0x80 {
        return false;
    }
    if c[1] as usize + 2 > c.len() {
        return false;
    }
    let n = conc(c[1] as usize);
    n + 2 <= c.len() && want.map_or(true, |w| w.len() == n && eq(&c[2..2 + n], w))
}
fn one(d: &[u8], oid: &[u8]) -> Option<usize> {
    let (body, rest) = seq(d)?;
    let want = if rest.len() == 0 { Some(oid) } else { None };
    let (tbs, after) = seq(body)?;
    if tbs.len() < 5 || !eq(&tbs[..5], &[0xA0, 3, 2, 1, 2]) {
        return None;
    }
    let (_, _, r) = split(&tbs[5..])?;
    let (a, r) = seq(r)?;
    if !alg_ok(a, want) {
        return None;
    }
    let (_, r) = seq(r)?;
    let (_, r) = seq(r)?;
    let (_, r) = seq(r)?;
    let (_, _) = seq(r)?;
    let (a, r) = seq(after)?;
    if !alg_ok(a, want) {
        return None;
    }
    let (_, _, r) = split(r)?;
    if r.len() != 0 {
        return None;
    }
    Some(d.len() - rest.len())
}
fn expected(d: &[u8], oid: &[u8]) -> Option<usize> {
    let (mut at, mut n) = (0, 0);
    while at < d.len() {
        at += one(&d[at..], oid)?;
        n += 1;
    }
    Some(n)
}
fn judge(d: &[u8], a: &(SpdmBaseAsymAlgo, Vec<u8>)) {
    each_address();
    let r = check_cert_chain_format(d, a.0);
    match (r, expected(d, &a.1)) {
        (Ok(n), Some(m)) => {
            check(n == m, "the number of certificates");
            cover("accepted");
        }
        (Err(_), None) => cover("refused"),
        (Ok(_), None) => check(false, "a malformed chain is refused"),
        (Err(_), Some(_)) => check(false, "a well-formed chain is accepted"),
    }
}

/// A good chain with arbitrary bytes somewhere. params: form of the lengths, padding, width, part of eight
#[no_mangle]
pub extern "C" fn h_x509_window() {
    install();
    let a = &algs()[0];
    let (form, pad) = (param(0) as usize, param(1) as usize);
    let mut d = cat(&[&cert(&[0x2b, 6], form, pad), &cert(&a.1, form, pad)]);
    let wd = param(2) as usize;
    let b: [u8; 8] = sym("bytes");
    // where headers are
    let spots: Vec<usize> = (0..d.len() - wd + 1).filter(|i| !d[*i..*i + wd].iter().all(|x| *x == 0x77)).filter(|i| i % 8 == param(3) as usize).collect();
    let at = spots[choose(spots.len() as u8, "where") as usize];
    d[at..at + wd].copy_from_slice(&b[..wd]);
    judge(&d, a);
}

/// Arbitrary bytes. param 0: length
#[no_mangle]
pub extern "C" fn h_x509_any() {
    install();
    let b: [u8; 32] = sym("bytes");
    judge(&b[..param(0) as usize], &algs()[2]);
}

/// Chains that end early or go on. param 0: form of the lengths
#[no_mangle]
pub extern "C" fn h_x509_cut() {
    install();
    let form = param(0) as usize;
    let a = &algs()[1];
    let n = choose(4, "certificates") as usize;
    let mut d = Vec::new();
    for i in 0..n {
        d.extend_from_slice(&cert(if i + 1 == n { &a.1 } else { &EC }, form, 3));
    }
    let l = d.len() as u8;
    let b: [u8; 3] = sym("more");
    d.extend_from_slice(&b);
    let k = choose(l + 4, "length") as usize;
    judge(&d[..k], a);
}

/// The algorithm of the last certificate, and only that one, is the negotiated one. param 0: algorithm
#[no_mangle]
pub extern "C" fn h_x509_alg() {
    install();
    let a = &algs()[param(0) as usize];
    let mut oid = a.1.clone();
    let b: [u8; 9] = sym("deviation");
    let which = choose(3, "which certificate");
    for i in 0..oid.len() {
        oid[i] ^= b[i];
    }
    let cut = choose(5, "shorter or longer") as usize;
    let end: [u8; 2] = sym("end");
    if cut < 3 {
        oid.truncate(oid.len() - cut);
    } else {
        oid.extend_from_slice(&end[..cut - 2]);
    }
    let oid = &oid[..];
    let good = cert(&a.1, 0, 2);
    let mut d = Vec::new();
    for i in 0..3 {
        d.extend_from_slice(&if i == which { cert(oid, 0, 2) } else { good.clone() });
    }
    judge(&d, a);
}
