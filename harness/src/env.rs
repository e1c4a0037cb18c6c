//! Environment of the code under test: device, transport and crypto stand-ins.
//!
//! Crypto is ideal: every primitive logs its inputs; hash, HMAC and HKDF are injective functions
//! (equal inputs give equal outputs, different inputs different ones); verification and decryption
//! verdicts are arbitrary.
use crate::sx::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::crypto;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::secret;

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Op {
    Hash = 1,
    Hmac = 2,
    HmacV = 3,
    Sign = 4,
    Verify = 5,
    Extract = 6,
    Expand = 7,
    PskH = 8,
    PskM = 9,
    DheGen = 10,
    DheFin = 11,
    Enc = 12,
    Dec = 13,
    Rand = 14,
    CertGet = 15,
    ChainV = 16,
    Meas = 17,
    MSum = 18,
    Sent = 19,
    Recv = 20,
    Vendor = 21,
    App = 22,
}
/// One use of the environment.
pub struct Ev {
    pub op: Op,
    pub algo: u32,
    pub algo2: u32,
    pub n: i64,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub c: Vec<u8>,
    pub d: Vec<u8>,
    pub out: Vec<u8>,
    pub ok: bool,
}
pub struct HCtx {
    pub live: bool,
    pub algo: u32,
    pub data: Vec<u8>,
}
pub struct World {
    pub log: Vec<Ev>,
    pub hctx: Vec<HCtx>,
    pub misuse: bool,
    /// verdicts of verification and decryption arbitrary (else always positive)
    pub free_verdict: bool,
    /// index of the fallible environment call that fails; usize::MAX: none
    pub fail_at: usize,
    pub calls: usize,
    pub fail_op: u8,
    pub failed: bool,
    /// responses the peer gives, called with the number of messages received so far
    pub rx: Option<fn(usize) -> Option<Vec<u8>>>,
    pub rx_n: usize,
    pub rx_secured: bool,
    pub rx_app: bool,
    pub io_fail: usize,
    pub max_random: u16,
    pub seq_count: u8,
    pub rand_concrete: bool,
    pub root_len: usize,
    pub leaf_off: usize,
    pub meas_n: u8,
    pub encap_pad: usize,
    pub last_timeout: usize,
    /// decryption succeeds exactly for what was encrypted with the same key, nonce and header
    pub aead_ideal: bool,
    /// answer of the application and vendor handlers
    pub app_reply: Vec<u8>,
    /// nobody forges: signatures and HMACs are good exactly for what was signed with the key, and
    /// certificate chains are good exactly when they are those of `certs` (owner, certificates)
    pub nobody_forges: bool,
    pub certs: Vec<(u8, Vec<u8>)>,
    /// whose code is running
    pub party: u8,
}
static mut W: Option<World> = None;
pub fn w() -> &'static mut World {
    unsafe {
        if W.is_none() {
            W = Some(World {
                log: Vec::new(),
                hctx: Vec::new(),
                misuse: false,
                free_verdict: true,
                fail_at: usize::MAX,
                calls: 0,
                fail_op: 0,
                failed: false,
                rx: None,
                rx_n: 0,
                rx_secured: false,
                rx_app: false,
                io_fail: usize::MAX,
                max_random: 0,
                seq_count: 2,
                rand_concrete: false,
                root_len: 8,
                leaf_off: 8,
                meas_n: 2,
                encap_pad: 0,
                last_timeout: 0,
                aead_ideal: false,
                app_reply: Vec::new(),
                nobody_forges: false,
                certs: Vec::new(),
                party: 0,
            });
        }
        W.as_mut().unwrap()
    }
}
fn fails(op: Op) -> bool {
    let w = w();
    let k = w.calls;
    w.calls += 1;
    if k == w.fail_at || w.fail_op == op as u8 {
        w.failed = true;
        true
    } else {
        false
    }
}
fn ev(op: Op) -> Ev {
    Ev { op, algo: 0, algo2: 0, n: 0, a: Vec::new(), b: Vec::new(), c: Vec::new(), d: Vec::new(), out: Vec::new(), ok: true }
}
pub fn push(e: Ev) {
    w().log.push(e)
}
/// Byte equality decided as one condition.
#[inline(never)]
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut x = 0u8;
    for i in 0..a.len() {
        x |= a[i] ^ b[i];
    }
    x == 0
}
fn fill(op: Op, id: usize, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(match i {
            0 => 0xC0 ^ op as u8,
            1 => id as u8,
            _ => (op as usize * 31 + id * 7 + i * 3) as u8,
        });
    }
    v
}
/// Result of an ideal function on logged inputs.
fn ideal(mut e: Ev, n: usize) -> Vec<u8> {
    let w = w();
    let mut id = 1usize;
    for p in w.log.iter() {
        if p.op == e.op {
            if p.algo == e.algo && p.n == e.n && p.out.len() == n && eq(&p.a, &e.a) && eq(&p.b, &e.b) {
                return p.out.clone();
            }
            id += 1;
        }
    }
    let out = fill(e.op, id, n);
    e.out = out.clone();
    w.log.push(e);
    out
}
fn verdict(name: &str) -> bool {
    if w().free_verdict {
        choose(2, name) == 1
    } else {
        true
    }
}

// ---- hash
fn hash_value(algo: u32, data: &[u8], n: usize) -> SpdmDigestStruct {
    let mut e = ev(Op::Hash);
    e.algo = algo;
    e.a = data.to_vec();
    SpdmDigestStruct::from(ideal(e, n).as_slice())
}
fn hash_all_cb(algo: SpdmBaseHashAlgo, data: &[u8]) -> Option<SpdmDigestStruct> {
    if fails(Op::Hash) || algo.bits() == 0 {
        return None;
    }
    Some(hash_value(algo.bits(), data, algo.get_size() as usize))
}
fn hash_init_cb(algo: SpdmBaseHashAlgo) -> Option<usize> {
    if fails(Op::Hash) || algo.bits() == 0 {
        return None;
    }
    w().hctx.push(HCtx { live: true, algo: algo.bits(), data: Vec::new() });
    Some(w().hctx.len())
}
fn hctx(i: usize) -> Option<&'static mut HCtx> {
    let w = w();
    if i == 0 || i > w.hctx.len() || !w.hctx[i - 1].live {
        w.misuse = true;
        return None;
    }
    Some(&mut w.hctx[i - 1])
}
fn hash_update_cb(i: usize, d: &[u8]) -> SpdmResult {
    let c = hctx(i).ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
    if fails(Op::Hash) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    c.data.extend_from_slice(d);
    Ok(())
}
fn hash_fin_cb(i: usize) -> Option<SpdmDigestStruct> {
    let c = hctx(i)?;
    c.live = false;
    let a = SpdmBaseHashAlgo::from_bits_truncate(c.algo);
    Some(hash_value(c.algo, &c.data, a.get_size() as usize))
}
fn hash_dup_cb(i: usize) -> Option<usize> {
    let c = hctx(i)?;
    let n = HCtx { live: true, algo: c.algo, data: c.data.clone() };
    w().hctx.push(n);
    Some(w().hctx.len())
}
/// Number of hash states neither finalized nor dropped.
pub fn live_hashes() -> usize {
    w().hctx.iter().filter(|c| c.live).count()
}
/// Content absorbed so far by a running hash of the code under test.
#[cfg(not(feature = "raw"))]
pub fn transcript(c: &Option<crypto::SpdmHashCtx>) -> Option<&'static [u8]> {
    // the handle is the only field
    let h: usize = match c {
        None => return None,
        Some(c) => unsafe { *(c as *const _ as *const usize) },
    };
    let c = &w().hctx[h - 1];
    Some(&c.data)
}

/// The transcripts in progress: challenge, measurements, those of a session.
#[cfg(not(feature = "raw"))]
mod progress {
    use super::*;
    use spdmlib::common::session::SpdmSession;
    fn own(t: &Option<crypto::SpdmHashCtx>) -> Option<Vec<u8>> {
        transcript(t).map(|t| t.to_vec())
    }
    pub fn m1m2(c: &SpdmContext) -> Option<Vec<u8>> {
        own(&c.runtime_info.digest_context_m1m2)
    }
    pub fn l1l2(c: &SpdmContext) -> Option<Vec<u8>> {
        own(&c.runtime_info.digest_context_l1l2)
    }
    pub fn th_of(s: &SpdmSession) -> Option<Vec<u8>> {
        own(&s.runtime_info.digest_context_th)
    }
    pub fn l1l2_of(s: &SpdmSession) -> Option<Vec<u8>> {
        own(&s.runtime_info.digest_context_l1l2)
    }
}
/// (the library keeps the messages: what it would hash now)
#[cfg(feature = "raw")]
mod progress {
    use super::*;
    use spdmlib::common::session::SpdmSession;
    fn some(head: &[&[u8]], parts: &[&[u8]]) -> Option<Vec<u8>> {
        if parts.iter().all(|p| p.is_empty()) {
            None
        } else {
            Some(cat(&[&cat(head), &cat(parts)]))
        }
    }
    pub fn m1m2(c: &SpdmContext) -> Option<Vec<u8>> {
        let r = &c.runtime_info;
        some(&[r.message_a.as_ref()], &[r.message_b.as_ref(), r.message_c.as_ref()])
    }
    pub fn l1l2(c: &SpdmContext) -> Option<Vec<u8>> {
        let r = &c.runtime_info;
        let a: &[u8] = if c.negotiate_info.spdm_version_sel == ver(2) { r.message_a.as_ref() } else { &[] };
        some(&[a], &[r.message_m.as_ref()])
    }
    pub fn th_of(s: &SpdmSession) -> Option<Vec<u8>> {
        let r = &s.runtime_info;
        let h = |d: &Option<SpdmDigestStruct>| d.as_ref().map_or(Vec::new(), |d| d.as_ref().to_vec());
        let f = r.message_f.as_ref();
        let q = if f.is_empty() || s.get_mut_auth_requested().is_empty() { Vec::new() } else { h(&r.req_cert_hash) };
        some(&[r.message_a.as_ref(), &h(&r.rsp_cert_hash)], &[r.message_k.as_ref(), &q, f])
    }
    pub fn l1l2_of(s: &SpdmSession) -> Option<Vec<u8>> {
        some(&[], &[s.runtime_info.message_m.as_ref()])
    }
}
pub use progress::*;

// ---- hmac
fn hmac_cb(algo: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Option<SpdmDigestStruct> {
    if fails(Op::Hmac) {
        return None;
    }
    let mut e = ev(Op::Hmac);
    e.algo = algo.bits();
    e.a = key.to_vec();
    e.b = data.to_vec();
    Some(SpdmDigestStruct::from(ideal(e, algo.get_size() as usize).as_slice()))
}
fn hmac_verify_cb(algo: SpdmBaseHashAlgo, key: &[u8], data: &[u8], h: &SpdmDigestStruct) -> SpdmResult {
    let mut e = ev(Op::HmacV);
    e.algo = algo.bits();
    e.a = key.to_vec();
    e.b = data.to_vec();
    e.c = h.data[..h.data_size as usize].to_vec();
    e.ok = if w().nobody_forges {
        let mut f = ev(Op::Hmac);
        f.algo = e.algo;
        f.a = e.a.clone();
        f.b = e.b.clone();
        eq(&ideal(f, algo.get_size() as usize), &e.c)
    } else {
        verdict("hmac verdict")
    };
    let ok = e.ok;
    push(e);
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}

// ---- signatures
fn sign_cb(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, data: &[u8]) -> Option<SpdmSignatureStruct> {
    if fails(Op::Sign) {
        return None;
    }
    let n = w().log.iter().filter(|e| e.op == Op::Sign).count() + 1;
    let out = fill(Op::Sign, n, a.get_size() as usize);
    let mut e = ev(Op::Sign);
    e.n = w().party as i64;
    e.algo = h.bits();
    e.algo2 = a.bits();
    e.a = data.to_vec();
    e.out = out.clone();
    push(e);
    let mut s = SpdmSignatureStruct { data_size: out.len() as u16, ..Default::default() };
    s.data[..out.len()].copy_from_slice(&out);
    Some(s)
}
fn verify_cb(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, cert: &[u8], data: &[u8], s: &SpdmSignatureStruct) -> SpdmResult {
    let mut e = ev(Op::Verify);
    e.algo = h.bits();
    e.algo2 = a.bits();
    e.a = cert.to_vec();
    e.b = data.to_vec();
    e.c = s.data[..s.data_size as usize].to_vec();
    e.ok = if w().nobody_forges {
        let mut hit = false;
        for (who, c) in w().certs.iter() {
            let leaf = eq(c, cert);
            for p in w().log.iter().filter(|p| p.op == Op::Sign && p.n == *who as i64 && p.algo == e.algo && p.algo2 == e.algo2) {
                hit = hit | (leaf & eq(&p.a, data) & eq(&p.out, &e.c));
            }
        }
        hit
    } else {
        verdict("signature verdict")
    };
    let ok = e.ok;
    push(e);
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}

// ---- hkdf
fn extract_cb(h: SpdmBaseHashAlgo, salt: &[u8], ikm: &SpdmHkdfInputKeyingMaterial) -> Option<SpdmHkdfPseudoRandomKey> {
    if fails(Op::Extract) {
        return None;
    }
    let mut e = ev(Op::Extract);
    e.algo = h.bits();
    e.a = salt.to_vec();
    e.b = ikm.as_ref().to_vec();
    Some(SpdmHkdfPseudoRandomKey::from(ideal(e, h.get_size() as usize).as_slice()))
}
fn expand_cb(h: SpdmBaseHashAlgo, prk: &SpdmHkdfPseudoRandomKey, info: &[u8], n: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if fails(Op::Expand) {
        return None;
    }
    let mut e = ev(Op::Expand);
    e.algo = h.bits();
    e.a = prk.as_ref().to_vec();
    e.b = info.to_vec();
    e.n = n as i64;
    Some(SpdmHkdfOutputKeyingMaterial::from(ideal(e, n as usize).as_slice()))
}
fn psk(op: Op, v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if fails(op) {
        return None;
    }
    let mut e = ev(op);
    e.algo = h.bits();
    e.n = v.get_u8() as i64;
    e.a = hint.as_ref().to_vec();
    e.b = info.to_vec();
    Some(SpdmHkdfOutputKeyingMaterial::from(ideal(e, h.get_size() as usize).as_slice()))
}
fn psk_h_cb(v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    psk(Op::PskH, v, h, hint, info)
}
fn psk_m_cb(v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    psk(Op::PskM, v, h, hint, info)
}

// ---- dhe
struct Dhe(SpdmDheAlgo, Vec<u8>);
fn dhe_gen_cb(a: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn crypto::SpdmDheKeyExchange>)> {
    if fails(Op::DheGen) || a.bits() == 0 {
        return None;
    }
    let n = w().log.iter().filter(|e| e.op == Op::DheGen).count() + 1;
    let out = fill(Op::DheGen, n, a.get_size() as usize);
    let mut e = ev(Op::DheGen);
    e.algo = a.bits() as u32;
    e.out = out.clone();
    push(e);
    let mut s = SpdmDheExchangeStruct { data_size: out.len() as u16, ..Default::default() };
    s.data[..out.len()].copy_from_slice(&out);
    Some((s, Box::new(Dhe(a, out))))
}
impl crypto::SpdmDheKeyExchange for Dhe {
    fn compute_final_key(self: Box<Self>, peer: &SpdmDheExchangeStruct) -> Option<SpdmDheFinalKeyStruct> {
        if fails(Op::DheFin) {
            return None;
        }
        let mut e = ev(Op::DheFin);
        e.algo = self.0.bits() as u32;
        e.a = self.1.clone();
        e.b = peer.as_ref().to_vec();
        let n = (self.0.get_size() / 2) as usize;
        if w().nobody_forges {
            // both sides get the same
            if let Some(p) = w().log.iter().find(|p| p.op == Op::DheFin && p.algo == e.algo && eq(&p.a, &e.b) && eq(&p.b, &e.a)) {
                return Some(SpdmDheFinalKeyStruct::from(p.out.as_slice()));
            }
        }
        Some(SpdmDheFinalKeyStruct::from(ideal(e, n).as_slice()))
    }
}

// ---- aead
fn enc_cb(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], plain: &[u8], tag: &mut [u8], cipher: &mut [u8]) -> SpdmResult<(usize, usize)> {
    if fails(Op::Enc) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let n = w().log.iter().filter(|e| e.op == Op::Enc).count() + 1;
    let mut e = ev(Op::Enc);
    e.algo = a.bits() as u32;
    e.a = key.as_ref().to_vec();
    e.b = iv.as_ref().to_vec();
    e.c = aad.to_vec();
    e.d = plain.to_vec();
    let t = fill(Op::Enc, n, tag.len());
    tag.copy_from_slice(&t);
    e.out = t;
    for i in 0..plain.len() {
        cipher[i] = plain[i] ^ 0xA5;
    }
    e.n = plain.len() as i64;
    let r = (plain.len(), tag.len());
    push(e);
    Ok(r)
}
fn dec_cb(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], cipher: &[u8], tag: &[u8], plain: &mut [u8]) -> SpdmResult<usize> {
    let mut e = ev(Op::Dec);
    e.algo = a.bits() as u32;
    e.a = key.as_ref().to_vec();
    e.b = iv.as_ref().to_vec();
    e.c = aad.to_vec();
    e.d = cipher.to_vec();
    e.out = tag.to_vec();
    e.ok = if w().aead_ideal {
        let mut hit = false;
        for p in w().log.iter().filter(|p| p.op == Op::Enc && p.d.len() == cipher.len()) {
            let mut c = Vec::with_capacity(cipher.len());
            for x in p.d.iter() {
                c.push(*x ^ 0xA5);
            }
            hit = hit || (eq(&p.a, &e.a) & eq(&p.b, &e.b) & eq(&p.c, &e.c) & eq(&c, cipher) & eq(&p.out, tag));
        }
        hit
    } else {
        verdict("decrypt verdict")
    };
    let ok = e.ok;
    push(e);
    if !ok {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    for i in 0..cipher.len() {
        plain[i] = cipher[i] ^ 0xA5;
    }
    Ok(cipher.len())
}

// ---- random
fn rand_cb(d: &mut [u8]) -> SpdmResult<usize> {
    if fails(Op::Rand) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let n = w().log.iter().filter(|e| e.op == Op::Rand).count() + 1;
    if w().rand_concrete {
        d.copy_from_slice(&fill(Op::Rand, n, d.len()));
    } else {
        sym_into(d, "random");
    }
    let mut e = ev(Op::Rand);
    e.out = d.to_vec();
    push(e);
    Ok(d.len())
}

// ---- certificates
fn cert_get_cb(chain: &[u8], index: isize) -> SpdmResult<(usize, usize)> {
    let mut e = ev(Op::CertGet);
    e.a = chain.to_vec();
    e.n = index as i64;
    if fails(Op::CertGet) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    push(e);
    let (r, l) = (w().root_len.min(chain.len()), w().leaf_off.min(chain.len()));
    if index == 0 {
        Ok((0, r))
    } else {
        Ok((l, chain.len()))
    }
}
fn chain_v_cb(chain: &[u8]) -> SpdmResult {
    let mut e = ev(Op::ChainV);
    e.a = chain.to_vec();
    e.ok = if w().nobody_forges { w().certs.iter().any(|(_, c)| eq(c, chain)) } else { verdict("chain verdict") };
    let ok = e.ok;
    push(e);
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_INVALID_CERT)
    }
}

// ---- measurements
pub const BLK: usize = 4 + 3 + 8;
fn meas_cb(v: SpdmVersion, spec: SpdmMeasurementSpecification, h: SpdmMeasurementHashAlgo, idx: usize) -> Option<SpdmMeasurementRecordStructure> {
    if fails(Op::Meas) {
        return None;
    }
    let n = w().meas_n;
    let mut r = SpdmMeasurementRecordStructure::default();
    let mut e = ev(Op::Meas);
    e.n = idx as i64;
    e.algo = h.bits();
    e.algo2 = v.get_u8() as u32 * 256 + spec.bits() as u32;
    // DSP0274: index 0 asks for the number of indices, 0xff for all of them
    if idx == 0 {
        r.number_of_blocks = n;
    } else {
        let (lo, hi) = if idx == 0xff { (1, n as usize) } else { (idx, idx) };
        if hi > n as usize {
            return None;
        }
        let mut at = 0usize;
        for i in lo..=hi {
            let blk = [i as u8, 1, 11, 0, 0x80, 8, 0, 0x70 + i as u8, 1, 2, 3, 4, 5, 6, 7];
            r.measurement_record_data[at..at + BLK].copy_from_slice(&blk);
            at += BLK;
            r.number_of_blocks += 1;
        }
        r.measurement_record_length = codec::u24::new(at as u32);
        e.out = r.measurement_record_data[..at].to_vec();
    }
    push(e);
    Some(r)
}
fn msum_cb(v: SpdmVersion, h: SpdmBaseHashAlgo, spec: SpdmMeasurementSpecification, mh: SpdmMeasurementHashAlgo, t: SpdmMeasurementSummaryHashType) -> Option<SpdmDigestStruct> {
    if fails(Op::MSum) {
        return None;
    }
    let mut e = ev(Op::MSum);
    e.algo = h.bits();
    e.algo2 = v.get_u8() as u32 * 256 + spec.bits() as u32;
    e.n = t.get_u8() as i64;
    e.a = mh.bits().to_le_bytes().to_vec();
    Some(SpdmDigestStruct::from(ideal(e, h.get_size() as usize).as_slice()))
}

pub fn install() {
    crypto::hash::register(crypto::SpdmHash {
        hash_all_cb,
        #[cfg(not(feature = "raw"))]
        hash_ctx_init_cb: hash_init_cb,
        #[cfg(not(feature = "raw"))]
        hash_ctx_update_cb: hash_update_cb,
        #[cfg(not(feature = "raw"))]
        hash_ctx_finalize_cb: hash_fin_cb,
        #[cfg(not(feature = "raw"))]
        hash_ctx_dup_cb: hash_dup_cb,
    });
    crypto::hmac::register(crypto::SpdmHmac { hmac_cb, hmac_verify_cb });
    crypto::aead::register(crypto::SpdmAead { encrypt_cb: enc_cb, decrypt_cb: dec_cb });
    crypto::asym_verify::register(crypto::SpdmAsymVerify { verify_cb });
    crypto::dhe::register(crypto::SpdmDhe { generate_key_pair_cb: dhe_gen_cb });
    crypto::cert_operation::register(crypto::SpdmCertOperation {
        get_cert_from_cert_chain_cb: cert_get_cb,
        verify_cert_chain_cb: chain_v_cb,
    });
    crypto::hkdf::register(crypto::SpdmHkdf { hkdf_extract_cb: extract_cb, hkdf_expand_cb: expand_cb });
    crypto::rand::register(crypto::SpdmCryptoRandom { get_random_cb: rand_cb });
    secret::measurement::register(secret::SpdmSecretMeasurement {
        measurement_collection_cb: meas_cb,
        generate_measurement_summary_hash_cb: msum_cb,
    });
    secret::psk::register(secret::SpdmSecretPsk {
        handshake_secret_hkdf_expand_cb: psk_h_cb,
        master_secret_hkdf_expand_cb: psk_m_cb,
    });
    secret::asym_sign::register(secret::SpdmSecretAsymSign { sign_cb });
    spdmlib::responder::app_message_handler::register(spdmlib::responder::app_message_handler::SpdmAppMessageHandler {
        dispatch_secured_app_message_cb: app_cb,
    });
    spdmlib::message::vendor::register_vendor_defined_struct(spdmlib::message::vendor::VendorDefinedStruct { vendor_defined_request_handler: vendor_cb });
}

// ---- handlers of the application
fn app_cb(_c: &mut spdmlib::responder::ResponderContext, id: u32, d: &[u8], aux: &[u8]) -> SpdmResult<([u8; spdmlib::config::MAX_SPDM_MSG_SIZE], usize)> {
    if fails(Op::App) {
        return Err(SPDM_STATUS_UNSUPPORTED_CAP);
    }
    let mut e = ev(Op::App);
    e.n = id as i64;
    e.a = d.to_vec();
    e.b = aux.to_vec();
    push(e);
    let mut r = [0u8; spdmlib::config::MAX_SPDM_MSG_SIZE];
    let n = w().app_reply.len();
    r[..n].copy_from_slice(&w().app_reply);
    Ok((r, n))
}
fn vendor_cb(d: &spdmlib::message::vendor::VendorDefinedReqPayloadStruct) -> SpdmResult<spdmlib::message::vendor::VendorDefinedRspPayloadStruct> {
    if fails(Op::Vendor) {
        return Err(SPDM_STATUS_UNSUPPORTED_CAP);
    }
    let mut e = ev(Op::Vendor);
    e.n = d.req_length as i64;
    // a handler that uses the payload as it is described
    e.a = d.vendor_defined_req_payload[..conc(d.req_length as usize)].to_vec();
    push(e);
    let mut r = spdmlib::message::vendor::VendorDefinedRspPayloadStruct { rsp_length: 0, vendor_defined_rsp_payload: [0; spdmlib::message::vendor::MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE] };
    let n = w().app_reply.len();
    r.rsp_length = n as u16;
    r.vendor_defined_rsp_payload[..n].copy_from_slice(&w().app_reply);
    Ok(r)
}

// ---- device and transport
pub struct Io;
impl SpdmDeviceIo for Io {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        let n = count(Op::Sent);
        let mut e = ev(Op::Sent);
        e.a = b.to_vec();
        if n == w().io_fail {
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        push(e);
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], t: usize) -> Result<usize, usize> {
        w().last_timeout = t;
        let f = match w().rx {
            Some(f) => f,
            None => return Err(0),
        };
        let i = w().rx_n;
        w().rx_n += 1;
        match f(i) {
            None => Err(0),
            Some(v) => {
                b[..v.len()].copy_from_slice(&v);
                let mut e = ev(Op::Recv);
                let n = v.len();
                e.a = v;
                push(e);
                Ok(n)
            }
        }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
/// Transport that leaves messages as they are and reports the flags the harness sets.
pub struct Tr;
fn copy(s: &[u8], t: &mut [u8]) -> SpdmResult<usize> {
    if s.len() > t.len() {
        return Err(SPDM_STATUS_ENCAP_FAIL);
    }
    t[..s.len()].copy_from_slice(s);
    Ok(s.len())
}
impl SpdmTransportEncap for Tr {
    fn encap(&mut self, s: &[u8], t: &mut [u8], _sec: bool) -> SpdmResult<usize> {
        copy(s, t)
    }
    fn decap(&mut self, t: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        copy(t, s).map(|n| (n, w().rx_secured))
    }
    fn encap_app(&mut self, s: &[u8], t: &mut [u8], _app: bool) -> SpdmResult<usize> {
        copy(s, t)
    }
    fn decap_app(&mut self, t: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        copy(t, s).map(|n| (n, w().rx_app))
    }
    fn get_sequence_number_count(&mut self) -> u8 {
        w().seq_count
    }
    fn get_max_random_count(&mut self) -> u16 {
        w().max_random
    }
}

// ---- helpers
pub fn count(op: Op) -> usize {
    w().log.iter().filter(|e| e.op == op).count()
}
pub fn nth(op: Op, n: usize) -> &'static Ev {
    w().log.iter().filter(|e| e.op == op).nth(n).unwrap()
}
pub fn sent() -> usize {
    count(Op::Sent)
}
/// n-th message given to the device
pub fn msg(n: usize) -> &'static [u8] {
    &nth(Op::Sent, n).a
}
/// Entry of the log whose output these bytes are.
pub fn by_out(op: Op, out: &[u8]) -> Option<&'static Ev> {
    w().log.iter().find(|e| e.op == op && eq(&e.out, out))
}
/// Content whose hash these bytes are.
pub fn preimage(out: &[u8]) -> Option<&'static [u8]> {
    by_out(Op::Hash, out).map(|e| &e.a[..])
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
pub fn le16(b: &[u8], at: usize) -> usize {
    b[at] as usize | (b[at + 1] as usize) << 8
}
pub fn le32(b: &[u8], at: usize) -> u32 {
    u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]])
}
pub fn set_state(c: &mut SpdmContext, st: u8) {
    c.runtime_info.set_connection_state(match st {
        0 => SpdmConnectionState::SpdmConnectionNotStarted,
        1 => SpdmConnectionState::SpdmConnectionAfterVersion,
        2 => SpdmConnectionState::SpdmConnectionAfterCapabilities,
        3 => SpdmConnectionState::SpdmConnectionNegotiated,
        4 => SpdmConnectionState::SpdmConnectionAfterDigest,
        6 => SpdmConnectionState::SpdmConnectionAuthenticated,
        _ => SpdmConnectionState::SpdmConnectionAfterCertificate,
    });
}
pub fn ver(n: u8) -> SpdmVersion {
    match n {
        0 => SpdmVersion::SpdmVersion10,
        1 => SpdmVersion::SpdmVersion11,
        _ => SpdmVersion::SpdmVersion12,
    }
}
/// Arbitrary negotiated version.
pub fn any_ver() -> SpdmVersion {
    ver(choose(3, "version"))
}
pub const H: usize = 32;
pub const SIG: usize = 64;
pub const DHE: usize = 64;
/// SHA-256, ECDSA P-256, secp256r1, AES-128-GCM, no capabilities.
pub fn negotiate(c: &mut SpdmContext, v: SpdmVersion) {
    let n = &mut c.negotiate_info;
    n.spdm_version_sel = v;
    n.base_hash_sel = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
    n.base_asym_sel = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
    n.req_asym_sel = SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
    n.dhe_sel = SpdmDheAlgo::SECP_256_R1;
    n.aead_sel = SpdmAeadAlgo::AES_128_GCM;
    n.key_schedule_sel = SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE;
    n.measurement_specification_sel = SpdmMeasurementSpecification::DMTF;
    n.measurement_hash_sel = SpdmMeasurementHashAlgo::TPM_ALG_SHA_256;
    n.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
}
pub fn caps_rsp(c: &mut SpdmContext, bits: u32) {
    c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits(bits).unwrap();
}
pub fn caps_req(c: &mut SpdmContext, bits: u32) {
    c.negotiate_info.req_capabilities_sel = SpdmRequestCapabilityFlags::from_bits(bits).unwrap();
}
/// A stored certificate chain (length, reserved, root hash, certificates) of known bytes.
pub fn chain(fillb: u8, certs: usize) -> SpdmCertChainBuffer {
    let n = 4 + H + certs;
    let mut b = SpdmCertChainBuffer { data_size: n as u16, ..Default::default() };
    for i in 0..n {
        b.data[i] = fillb.wrapping_add(i as u8);
    }
    b.data[0] = n as u8;
    b.data[1] = (n >> 8) as u8;
    b.data[2] = 0;
    b.data[3] = 0;
    b
}
pub fn sigbuf(s: &SpdmSignatureStruct) -> &[u8] {
    &s.data[..s.data_size as usize]
}
