//! Key schedule, secured records, key update.
use crate::env::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_keys", h_keys),
    ("h_keys_update", h_keys_update),
    ("h_rec_enc", h_rec_enc),
    ("h_rec_dec", h_rec_dec),
    ("h_rec_pair", h_rec_pair),
    ("h_rec_size", h_rec_size),
    ("h_kupd_rsp", h_kupd_rsp),
    ("h_kupd_req", h_kupd_req),
];
const HS: SpdmSessionState = SpdmSessionState::SpdmSessionHandshaking;
const EST: SpdmSessionState = SpdmSessionState::SpdmSessionEstablished;

fn hash(i: u8) -> (SpdmBaseHashAlgo, usize) {
    match i {
        0 => (SpdmBaseHashAlgo::TPM_ALG_SHA_256, 32),
        1 => (SpdmBaseHashAlgo::TPM_ALG_SHA_384, 48),
        _ => (SpdmBaseHashAlgo::TPM_ALG_SHA_512, 64),
    }
}
fn aead(i: u8) -> (SpdmAeadAlgo, usize) {
    match i {
        0 => (SpdmAeadAlgo::AES_128_GCM, 16),
        1 => (SpdmAeadAlgo::AES_256_GCM, 32),
        _ => (SpdmAeadAlgo::CHACHA20_POLY1305, 32),
    }
}
/// HKDF-Expand info of DSP0277/DSP0274: length, "spdm" version, label, context
pub fn info(n: usize, v: SpdmVersion, label: &str, ctx: &[u8]) -> Vec<u8> {
    let b = v.get_u8();
    cat(&[&[n as u8, (n >> 8) as u8], b"spdm", &[b'0' + (b >> 4), b'.', b'0' + (b & 15), b' '], label.as_bytes(), ctx])
}
/// The expansion these bytes are the result of is of `secret` with the given info.
pub fn is_expand(out: &[u8], h: SpdmBaseHashAlgo, secret: &[u8], inf: &[u8]) -> bool {
    by_out(Op::Expand, out).map_or(false, |e| e.algo == h.bits() && eq(&e.a, secret) && eq(&e.b, inf))
}
/// Keys in use in one direction: what the next record is protected with (key, nonce at number 0).
pub fn dir_keys(s: &SpdmSession, st: SpdmSessionState, req: bool) -> (Vec<u8>, Vec<u8>) {
    let mut s = s.clone();
    s.set_session_state(st);
    let mut b = [0u8; 64];
    let n = s.encode_spdm_secured_message(&[0x55], &mut b, req).unwrap_or(0);
    check(n != 0, "a record can be protected");
    let e = w().log.pop().unwrap();
    (e.a.clone(), e.b.clone())
}
fn digest(b: &[u8]) -> SpdmDigestStruct {
    SpdmDigestStruct::from(b)
}
/// A session with all its keys; `th`: the two transcript hashes
pub fn keyed(s: &mut SpdmSession, id: u32, v: SpdmVersion, th: &[u8]) {
    let _ = s.setup(id);
    s.set_use_psk(false);
    s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_256, SpdmDheAlgo::SECP_256_R1, SpdmAeadAlgo::AES_128_GCM, SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
    s.set_transport_param(2, 0);
    let _ = s.set_dhe_secret(v, SpdmDheFinalKeyStruct::from(&[0xD1u8; 32][..]));
    let _ = s.generate_handshake_secret(v, &digest(&th[..H]));
    let _ = s.generate_data_secret(v, &digest(&th[H..2 * H]));
}

/// The key schedule. param 0: hash
#[no_mangle]
pub extern "C" fn h_keys() {
    install();
    let (ha, hn) = hash(param(0) as u8);
    let (ae, kn) = aead(choose(3, "aead"));
    let v = any_ver();
    let psk = choose(2, "psk") == 1;
    let mut s = SpdmSession::new();
    let id = sym_u32("id");
    assume(id != 0);
    let _ = s.setup(id);
    s.set_use_psk(psk);
    s.set_crypto_param(ha, SpdmDheAlgo::SECP_256_R1, ae, SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
    s.set_transport_param(0, 0);
    let th1: [u8; 64] = sym("th1");
    let th2: [u8; 64] = sym("th2");
    let dhe: [u8; 32] = sym("dhe secret");
    let hint: [u8; 8] = sym("psk hint");
    let hl = choose(9, "hint length") as usize;
    if psk {
        let mut p = SpdmPskHintStruct::default();
        p.data_size = hl as u16;
        p.data[..hl].copy_from_slice(&hint[..hl]);
        s.runtime_info.psk_hint = Some(p);
    } else {
        assume(hl == 0);
        check(s.set_dhe_secret(v, SpdmDheFinalKeyStruct::from(&dhe[..])).is_ok(), "the shared secret is accepted");
    }
    check(s.generate_handshake_secret(v, &digest(&th1[..hn])).is_ok(), "handshake secrets are derived");
    check(s.generate_data_secret(v, &digest(&th2[..hn])).is_ok(), "data secrets are derived");
    let zero = [0u8; 64];
    // roots
    let (mut hs, mut ms) = (Vec::new(), Vec::new());
    if !psk {
        let e = nth(Op::Extract, 0);
        check(e.algo == ha.bits() && eq(&e.a, &zero[..hn]) && eq(&e.b, &dhe), "handshake secret: extract of the shared secret with a zero salt");
        hs = e.out.clone();
        let m = nth(Op::Extract, 1);
        check(m.algo == ha.bits() && is_expand(&m.a, ha, &hs, &info(hn, v, "derived", &[])) && eq(&m.b, &zero[..hn]), "master secret: extract of zeros with the salt derived from the handshake secret");
        ms = m.out.clone();
    }
    // a secret bound to a label and a transcript
    let root = |out: &[u8], hsk: bool, label: &str, th: &[u8]| -> bool {
        let i = info(hn, v, label, th);
        if psk {
            by_out(if hsk { Op::PskH } else { Op::PskM }, out).map_or(false, |e| e.algo == ha.bits() && e.n == v.get_u8() as i64 && eq(&e.a, &hint[..hl]) && eq(&e.b, &i))
        } else {
            is_expand(out, ha, if hsk { &hs } else { &ms }, &i)
        }
    };
    let keys = |st, req, label: &str, hsk, th: &[u8]| {
        let (k, iv) = dir_keys(&s, st, req);
        let ke = by_out(Op::Expand, &k);
        let ie = by_out(Op::Expand, &iv);
        check(ke.is_some() && ie.is_some(), "keys and nonces are derived");
        let (ke, ie) = (ke.unwrap(), ie.unwrap());
        check(ke.algo == ha.bits() && ke.n as usize >= kn && eq(&ke.b, &info(kn, v, "key", &[])), "encryption key label");
        check(ie.algo == ha.bits() && ie.n == 12 && eq(&ie.b, &info(12, v, "iv", &[])), "nonce label");
        check(eq(&ke.a, &ie.a), "key and nonce come from one secret");
        check(root(&ke.a, hsk, label, th), "direction secret: root, version, label and transcript hash");
        ke.a.clone()
    };
    let rq = keys(HS, true, "req hs data", true, &th1[..hn]);
    let rs = keys(HS, false, "rsp hs data", true, &th1[..hn]);
    keys(EST, true, "req app data", false, &th2[..hn]);
    keys(EST, false, "rsp app data", false, &th2[..hn]);
    let (a, b) = s.export_keys();
    let (k1, i1) = dir_keys(&s, EST, true);
    let (k2, i2) = dir_keys(&s, EST, false);
    check(eq(a.encryption_key.as_ref(), &k1) && eq(a.salt.as_ref(), &i1) && eq(b.encryption_key.as_ref(), &k2) && eq(b.salt.as_ref(), &i2), "exported keys are the data keys");
    // finished keys
    let _ = s.generate_hmac_with_request_finished_key(&[1]);
    let _ = s.generate_hmac_with_response_finished_key(&[2]);
    let _ = s.verify_hmac_with_request_finished_key(&[1], &digest(&zero[..hn]));
    let _ = s.verify_hmac_with_response_finished_key(&[2], &digest(&zero[..hn]));
    let fi = info(hn, v, "finished", &[]);
    let (f1, f2) = (nth(Op::Hmac, 0), nth(Op::Hmac, 1));
    check(is_expand(&f1.a, ha, &rq, &fi) && is_expand(&f2.a, ha, &rs, &fi), "finished keys come from the direction's handshake secret");
    check(eq(&nth(Op::HmacV, 0).a, &f1.a) && eq(&nth(Op::HmacV, 1).a, &f2.a), "finished keys used to check are those used to make");
    // export master secret
    let xi = info(hn, v, "exp master", &[]);
    let mut x = false;
    for e in w().log.iter() {
        x = x || (e.algo == ha.bits() && if psk { e.op == Op::PskM && eq(&e.a, &hint[..hl]) } else { e.op == Op::Expand && eq(&e.a, &ms) } && eq(&e.b, &xi));
    }
    check(x, "export master secret");
    cover(if psk { "psk" } else { "dhe" });
    core::mem::forget(s);
}

/// Updates of the data secrets. Two steps, each creating an update and accepting or rejecting it.
#[no_mangle]
pub extern "C" fn h_keys_update() {
    install();
    let v = any_ver();
    let mut s = SpdmSession::new();
    keyed(&mut s, 0xFFFD_FFFD, v, &[7; 64]);
    let ha = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
    s.set_session_state(EST);
    for _ in 0..2 {
        let (sq, sp) = (sym_u64("request number"), sym_u64("response number"));
        s.set_request_direction_sequence_number(sq);
        s.set_response_direction_sequence_number(sp);
        let old = s.export_keys();
        let (uq, up) = (choose(2, "request") == 1, choose(2, "response") == 1);
        check(s.create_data_secret_update(v, uq, up).is_ok(), "an update can be derived");
        let new = s.export_keys();
        let dir = |u: bool, o: &SpdmSessionSecretParam, n: &SpdmSessionSecretParam, sn: u64| {
            if u {
                let so = by_out(Op::Expand, o.encryption_key.as_ref()).unwrap().a.clone();
                let e = by_out(Op::Expand, n.encryption_key.as_ref());
                check(e.map_or(false, |e| is_expand(&e.a, ha, &so, &info(32, v, "traffic upd", &[])) && eq(&e.b, &info(16, v, "key", &[]))), "updated key: from the updated secret of that direction");
                let i = by_out(Op::Expand, n.salt.as_ref());
                check(i.map_or(false, |i| eq(&i.a, &e.unwrap().a) && eq(&i.b, &info(12, v, "iv", &[]))), "updated nonce: from the updated secret of that direction");
                check(n.sequence_number == 0, "numbering restarts with a new key");
                cover("updated");
            } else {
                check(eq(o.encryption_key.as_ref(), n.encryption_key.as_ref()) && eq(o.salt.as_ref(), n.salt.as_ref()) && n.sequence_number == sn, "a direction not updated keeps key, nonce and number");
            }
        };
        dir(uq, &old.0, &new.0, sq);
        dir(up, &old.1, &new.1, sp);
        let keep = choose(2, "accept") == 1;
        check(s.activate_data_secret_update(v, uq, up, keep).is_ok(), "accepting or rejecting succeeds");
        let fin = s.export_keys();
        let want = if keep { &new } else { &old };
        check(
            eq(want.0.encryption_key.as_ref(), fin.0.encryption_key.as_ref()) && eq(want.0.salt.as_ref(), fin.0.salt.as_ref()) && eq(want.1.encryption_key.as_ref(), fin.1.encryption_key.as_ref()) && eq(want.1.salt.as_ref(), fin.1.salt.as_ref()),
            "accepting keeps the new keys, rejecting restores the old ones",
        );
        check(want.0.sequence_number == fin.0.sequence_number && want.1.sequence_number == fin.1.sequence_number, "accepting or rejecting keeps the numbers that belong to the keys");
    }
    core::mem::forget(s);
}

fn nonce(iv0: &[u8], seq: u64) -> Vec<u8> {
    let mut v = iv0.to_vec();
    let b = seq.to_le_bytes();
    for i in 0..8 {
        v[i] ^= b[i];
    }
    v
}

/// One record out. param 0: number of sequence number bytes on the wire
#[no_mangle]
pub extern "C" fn h_rec_enc() {
    install();
    let nseq = param(0) as usize;
    let mut s = SpdmSession::new();
    let id = sym_u32("id");
    assume(id != 0);
    keyed(&mut s, id, ver(1), &[7; 64]);
    s.set_transport_param(nseq as u8, 0);
    let req = choose(2, "requester") == 1;
    let est = choose(2, "established") == 1;
    let st = if est { EST } else { HS };
    let (key, iv0) = dir_keys(&s, st, req);
    let (okey, _) = dir_keys(&s, st, !req);
    let (skey, _) = dir_keys(&s, if est { HS } else { EST }, req);
    check(!eq(&key, &okey) && !eq(&key, &skey), "directions and phases use different keys");
    s.set_session_state(st);
    let mut seq = 0u64;
    if est {
        seq = sym_u64("number");
        if req {
            s.set_request_direction_sequence_number(seq);
            s.set_response_direction_sequence_number(77);
        } else {
            s.set_response_direction_sequence_number(seq);
            s.set_request_direction_sequence_number(77);
        }
    }
    for k in 0..2 {
        let n = choose(5, "length") as usize;
        let d: [u8; 4] = sym("data");
        let mut out = [0u8; 64];
        let encs = count(Op::Enc);
        let r = s.encode_spdm_secured_message(&d[..n], &mut out, req);
        if seq == u64::MAX {
            check(r.is_err() && count(Op::Enc) == encs, "no record is protected once the numbers are used up");
            cover("exhausted");
            continue;
        }
        check(r.is_ok() && count(Op::Enc) == encs + 1, "a record is protected once");
        let m = r.unwrap_or(0);
        let e = nth(Op::Enc, encs);
        let len = n + 2 + 16;
        let hdr = cat(&[&id.to_le_bytes(), &seq.to_le_bytes()[..nseq], &[len as u8, 0]]);
        check(m == hdr.len() + len && eq(&out[..hdr.len()], &hdr), "header: session, number, length");
        check(eq(&e.a, &key), "key of this direction and phase");
        check(eq(&e.b, &nonce(&iv0, seq)), "nonce: derived nonce combined with the number");
        check(eq(&e.c, &hdr), "the header is authenticated");
        check(eq(&e.d, &cat(&[&[n as u8, 0], &d[..n]])), "plain text: length and data");
        let mut c = e.d.clone();
        for x in c.iter_mut() {
            *x ^= 0xA5;
        }
        check(eq(&out[hdr.len()..m], &cat(&[&c, &e.out])), "cipher text and tag follow the header");
        seq += 1;
        if est {
            let (a, b) = (s.get_request_direction_sequence_number(), s.get_response_direction_sequence_number());
            check((if req { a } else { b }) == seq && (if req { b } else { a }) == 77, "only this direction's number advances, by one");
        }
        cover(if est { "data" } else { "handshake" });
    }
    core::mem::forget(s);
}

/// One record in. param 0: number of sequence number bytes on the wire
#[no_mangle]
pub extern "C" fn h_rec_dec() {
    install();
    let nseq = param(0) as usize;
    let mut s = SpdmSession::new();
    let id = sym_u32("id");
    assume(id != 0);
    keyed(&mut s, id, ver(1), &[7; 64]);
    s.set_transport_param(nseq as u8, 0);
    let req = choose(2, "requester") == 1;
    let est = choose(2, "established") == 1;
    let st = if est { EST } else { HS };
    let (key, iv0) = dir_keys(&s, st, req);
    s.set_session_state(st);
    let mut seq = 0u64;
    if est {
        seq = sym_u64("number");
        if req {
            s.set_request_direction_sequence_number(seq);
        } else {
            s.set_response_direction_sequence_number(seq);
        }
    }
    let rec: [u8; 34] = sym("record");
    let hl = 6 + nseq;
    let n = choose(35, "length") as usize;
    let cap = choose(9, "capacity") as usize;
    let mut out = [0u8; 8];
    let r = s.decode_spdm_secured_message(&rec[..n], &mut out[..cap], req);
    let dec = count(Op::Dec);
    let hdr_ok = n >= hl && eq(&rec[..4], &id.to_le_bytes()) && eq(&rec[4..4 + nseq], &seq.to_le_bytes()[..nseq]);
    let len = if n >= hl { le16(&rec, 4 + nseq) } else { 0 };
    if seq == u64::MAX || !hdr_ok || len < 16 || hl + len > n {
        check(r.is_err() && dec == 0, "a record for another session or number, or without a whole tag, is refused before decryption");
        cover("refused");
    } else {
        check(dec == 1, "a well-formed record is decrypted once");
        let len = conc(len);
        let e = nth(Op::Dec, 0);
        check(eq(&e.a, &key) && eq(&e.b, &nonce(&iv0, seq)) && eq(&e.c, &rec[..hl]), "key, nonce and header of this record");
        check(eq(&e.d, &rec[hl..hl + len - 16]) && eq(&e.out, &rec[hl + len - 16..hl + len]), "cipher text and tag of this record");
        let ct = len - 16;
        let al = if ct >= 2 { (rec[hl] ^ 0xA5) as usize | ((rec[hl + 1] ^ 0xA5) as usize) << 8 } else { 0 };
        if !e.ok || ct < 2 || al + 2 > ct || al > cap {
            check(r.is_err(), "a record that fails authentication, or whose inner length does not fit, is refused");
            cover("rejected");
        } else {
            check(matches!(r, Ok(x) if x == al), "the data has the length stated inside");
            let mut p = rec[hl + 2..hl + 2 + al].to_vec();
            for x in p.iter_mut() {
                *x ^= 0xA5;
            }
            check(eq(&out[..al], &p), "the data is what was decrypted");
            cover("accepted");
        }
    }
    core::mem::forget(s);
}

/// Two ends, ideal AEAD, a network that may drop, repeat, reorder, redirect and change records.
/// param 0: established
#[no_mangle]
pub extern "C" fn h_rec_pair() {
    install();
    w().aead_ideal = true;
    let id = 0xFFFD_FFFDu32;
    let mut a = SpdmSession::new();
    let mut b = SpdmSession::new();
    let mut o = SpdmSession::new();
    keyed(&mut a, id, ver(1), &[7; 64]);
    keyed(&mut b, id, ver(1), &[7; 64]);
    keyed(&mut o, id, ver(1), &[9; 64]);
    let st = if param(0) == 1 { EST } else { HS };
    a.set_session_state(st);
    b.set_session_state(st);
    o.set_session_state(st);
    // 0, 1: requester's records; 2: responder's; 3: of another session that has the same id
    let mut rec = [[0u8; 32]; 4];
    let d: [[u8; 3]; 4] = [sym("d0"), sym("d1"), sym("d2"), sym("d3")];
    let mut len = [0usize; 4];
    len[0] = a.encode_spdm_secured_message(&d[0], &mut rec[0], true).unwrap_or(0);
    len[1] = a.encode_spdm_secured_message(&d[1], &mut rec[1], true).unwrap_or(0);
    len[2] = b.encode_spdm_secured_message(&d[2], &mut rec[2], false).unwrap_or(0);
    len[3] = o.encode_spdm_secured_message(&d[3], &mut rec[3], true).unwrap_or(0);
    let mut got = 0usize;
    for k in 0..2 {
        let i = choose(4, "delivered") as usize;
        let mut m = rec[i];
        let at = choose(len[i] as u8, "position") as usize;
        let x = sym_u8("change");
        m[at] ^= x;
        let mut out = [0u8; 32];
        let r = b.decode_spdm_secured_message(&m[..len[i]], &mut out, true);
        let genuine = i < 2 && i == k && x == 0;
        if genuine {
            check(matches!(r, Ok(3)) && eq(&out[..3], &d[i]), "the record sent next is received as it was sent");
            cover("received");
        } else {
            check(r.is_err(), "a record that is changed, repeated, out of order, from the other direction or another session is refused");
            cover("refused");
        }
    }
    core::mem::forget((a, b, o));
}

/// Records that are too large. param 0: size of the data
#[no_mangle]
pub extern "C" fn h_rec_size() {
    install();
    let n = param(0) as usize;
    let mut s = SpdmSession::new();
    keyed(&mut s, 0xFFFD_FFFD, ver(1), &[7; 64]);
    s.set_session_state(EST);
    let d = alloc::vec![0x33u8; n];
    let mut out = [0u8; 448];
    let cap = param(1) as usize;
    let r = s.encode_spdm_secured_message(&d, &mut out[..cap], true);
    if n + 26 <= cap {
        check(matches!(r, Ok(x) if x == n + 26), "data that fits is protected");
        cover("fits");
    } else {
        check(r.is_err(), "data that does not fit is refused");
        cover("refused");
    }
    core::mem::forget(s);
}

pub fn session_ctx(c: &mut SpdmContext, v: SpdmVersion) -> u32 {
    negotiate(c, v);
    set_state(c, 5);
    caps_rsp(c, 0x46c2 | 0x4000);
    caps_req(c, 0x42c2 | 0x4000);
    keyed(&mut c.session[0], 0xFFFD_FFFD, v, &[7; 64]);
    c.session[0].set_session_state(EST);
    keyed(&mut c.session[1], 0xFFFC_FFFC, v, &[8; 64]);
    c.session[1].set_session_state(EST);
    0xFFFD_FFFD
}
static mut RX: Vec<u8> = Vec::new();
fn rx1(i: usize) -> Option<Vec<u8>> {
    unsafe { Some(RX.clone()) }
}
/// A record as the peer would protect it under the given keys.
pub fn record(id: u32, seq: u64, data: &[u8]) -> Vec<u8> {
    let mut p = cat(&[&[data.len() as u8, (data.len() >> 8) as u8], data]);
    for x in p.iter_mut() {
        *x ^= 0xA5;
    }
    let len = p.len() + 16;
    cat(&[&id.to_le_bytes(), &seq.to_le_bytes()[..2], &[len as u8, (len >> 8) as u8], &p, &[0x77; 16]])
}

fn same(a: &SpdmSessionSecretParam, b: &SpdmSessionSecretParam) -> bool {
    eq(a.encryption_key.as_ref(), b.encryption_key.as_ref()) && eq(a.salt.as_ref(), b.salt.as_ref())
}
/// `n` is the update of `o`
fn updated(o: &SpdmSessionSecretParam, n: &SpdmSessionSecretParam, v: SpdmVersion) -> bool {
    let so = &by_out(Op::Expand, o.encryption_key.as_ref()).unwrap().a;
    let e = by_out(Op::Expand, n.encryption_key.as_ref());
    e.map_or(false, |e| is_expand(&e.a, SpdmBaseHashAlgo::TPM_ALG_SHA_256, so, &info(32, v, "traffic upd", &[])))
        && by_out(Op::Expand, n.salt.as_ref()).map_or(false, |i| eq(&i.a, &e.unwrap().a))
}

/// The responder and KEY_UPDATE; two requests in a row, received as records.
/// param 0: 0, or the operation during which the environment fails
#[no_mangle]
pub extern "C" fn h_kupd_rsp() {
    install();
    w().free_verdict = false;
    w().rx_secured = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = any_ver();
    let id = session_ctx(&mut ctx.common, v);
    let (mut sq, mut sp) = (3u64, 5u64);
    ctx.common.session[0].set_request_direction_sequence_number(sq);
    ctx.common.session[0].set_response_direction_sequence_number(sp);
    let other = ctx.common.session[1].export_keys();
    for k in 0..2 {
        let req: [u8; 5] = sym("request");
        let mut m = req;
        m[1] = 0xE9;
        let n = 2 + choose(4, "length") as usize;
        let old = ctx.common.session[0].export_keys();
        unsafe { RX = record(id, sq, &m[..n]) };
        w().rx = Some(rx1);
        let base = w().calls;
        let fault = if param(0) == 1 { choose(8, "failing call") as usize } else { 0 };
        w().fail_at = if fault == 0 { usize::MAX } else { base + fault - 1 };
        w().failed = false;
        let _ = ctx.process_message(0, &[]);
        w().fail_at = usize::MAX;
        sq += 1;
        let s = &mut ctx.common.session[0];
        let new = s.export_keys();
        let op = m[2];
        let good = m[0] == v.get_u8() && n >= 4 && op >= 1 && op <= 3;
        if w().failed && sent() == k {
            // the answer itself could not be protected
            end();
            return;
        }
        check(sent() == k + 1, "KEY_UPDATE gets exactly one answer");
        let e = nth(Op::Enc, count(Op::Enc) - 1);
        let r = &e.d[2..];
        if good && !w().failed {
            check(eq(r, &[v.get_u8(), 0x69, op, m[3]]), "KEY_UPDATE_ACK repeats operation and tag");
            check(eq(&e.a, new.1.encryption_key.as_ref()), "the acknowledgement is protected with the response key now in use");
            if op == 3 {
                check(same(&old.0, &new.0) && same(&old.1, &new.1), "VerifyNewKey changes no key");
                sp += 1;
                cover("verify");
            } else {
                check(updated(&old.0, &new.0, v), "the request direction moves to the updated secret");
                sq = 0;
                if op == 2 {
                    check(updated(&old.1, &new.1, v), "UpdateAllKeys moves the response direction too");
                    sp = 1;
                    cover("all");
                } else {
                    check(same(&old.1, &new.1), "UpdateKey leaves the response direction");
                    sp += 1;
                    cover("single");
                }
            }
        } else {
            check(r.len() == 4 && r[1] == 0x7f, "a refused KEY_UPDATE gets an ERROR");
            check(same(&old.0, &new.0) && same(&old.1, &new.1), "a refused KEY_UPDATE changes no key");
            check(eq(&e.a, old.1.encryption_key.as_ref()), "the refusal is protected with the unchanged response key");
            sp += 1;
            cover(if good { "failed" } else { "refused" });
        }
        check(new.0.sequence_number == sq && new.1.sequence_number == sp, "numbers go on, and restart with a new key");
        let o2 = ctx.common.session[1].export_keys();
        check(same(&other.0, &o2.0) && same(&other.1, &o2.1), "other sessions keep their keys");
    }
    core::mem::forget(ctx);
}

/// The requester and KEY_UPDATE.
#[no_mangle]
pub extern "C" fn h_kupd_req() {
    install();
    w().rx_secured = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = any_ver();
    let id = session_ctx(&mut ctx.common, v);
    let all = choose(2, "all") == 1;
    let old = ctx.common.session[0].export_keys();
    // answers under the arbitrary verdict of the cipher; wrong sequence numbers never reach it
    static mut SEQ: [u64; 2] = [0; 2];
    static mut N: usize = 0;
    unsafe {
        SEQ = [0, if all { 1 } else { 1 }];
        N = 0;
    }
    fn rx(i: usize) -> Option<Vec<u8>> {
        unsafe {
            N += 1;
            if i >= 2 {
                return None;
            }
            let m: [u8; 5] = sym("response");
            let n = 1 + choose(5, "length") as usize;
            Some(record(0xFFFD_FFFD, SEQ[i], &m[..n]))
        }
    }
    w().rx = Some(rx);
    let r = ctx.send_receive_spdm_key_update(id, if all { SpdmKeyUpdateOperation::SpdmUpdateAllKeys } else { SpdmKeyUpdateOperation::SpdmUpdateSingleKey });
    let enc = count(Op::Enc);
    check(enc >= 1 && enc <= 2, "at most two requests");
    let e0 = nth(Op::Enc, 0);
    check(eq(&e0.a, old.0.encryption_key.as_ref()), "the request goes out under the old key");
    check(eq(&e0.d[2..], &[v.get_u8(), 0xE9, if all { 2 } else { 1 }, 1]), "KEY_UPDATE with the operation asked for");
    let s = &mut ctx.common.session[0];
    let new = s.export_keys();
    let acked = |k: usize| -> bool {
        // k-th answer decrypted and an acknowledgement
        if count(Op::Dec) <= k {
            return false;
        }
        let d = nth(Op::Dec, k);
        let mut p = d.d.clone();
        for x in p.iter_mut() {
            *x ^= 0xA5;
        }
        d.ok && p.len() >= 6 && p[2] == v.get_u8() && p[3] == 0x69 && p[4] >= 1 && p[4] <= 3
    };
    if acked(0) {
        check(enc == 2, "after the acknowledgement the new key is verified");
        let e1 = nth(Op::Enc, 1);
        check(eq(&e1.d[2..], &[v.get_u8(), 0xE9, 3, 2]), "VerifyNewKey follows");
        check(updated(&old.0, &SpdmSessionSecretParam { encryption_key: new.0.encryption_key.clone(), salt: new.0.salt.clone(), sequence_number: 0 }, v) || s.get_session_id() == 0, "the request direction is updated");
        if s.get_session_id() != 0 {
            check(eq(&e1.a, new.0.encryption_key.as_ref()), "VerifyNewKey goes out under the new key");
            check(if all { updated(&old.1, &new.1, v) } else { same(&old.1, &new.1) }, "the response direction is updated exactly for UpdateAllKeys");
        }
        check(r.is_ok() == acked(1), "success exactly when both steps are acknowledged");
        cover(if r.is_ok() { "updated" } else { "unverified" });
    } else {
        check(r.is_err() && enc == 1, "without an acknowledgement the update fails");
        if s.get_session_id() != 0 {
            check(same(&old.0, &new.0) && same(&old.1, &new.1), "without an acknowledgement the old keys stay in use");
            check(new.0.sequence_number == 1, "the number of the request key is not used again");
            cover("refused");
        } else {
            cover("ended");
        }
    }
    let o2 = ctx.common.session[1].get_session_id();
    check(o2 == 0xFFFC_FFFC, "other sessions stay");
    core::mem::forget(ctx);
}
