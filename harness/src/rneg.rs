//! Requester negotiation: GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS.
use crate::env::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::protocol::*;
use spdmlib::requester::*;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_rq_version", h_rq_version), ("h_rq_cap", h_rq_cap), ("h_rq_alg", h_rq_alg), ("h_rq_alg_form", h_rq_alg_form), ("h_rq_again", h_rq_again), ("h_rq_silent", h_rq_silent)];
pub static mut RX: Vec<Vec<u8>> = Vec::new();
pub fn rx1(i: usize) -> Option<Vec<u8>> {
    unsafe { RX.get(i).cloned() }
}
pub fn answer(a: &[&[u8]]) {
    unsafe { RX = a.iter().map(|x| x.to_vec()).collect() };
    w().rx = Some(rx1);
}
fn a_of<'a>(c: &'a SpdmContext) -> &'a [u8] {
    c.runtime_info.message_a.as_ref()
}
const ERR: &str = "an answer that does not fit is refused";

#[no_mangle]
pub extern "C" fn h_rq_version() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    let vs = [choose(3, "v0"), choose(3, "v1"), choose(3, "v2")];
    cfg.spdm_version = [ver(vs[0]), ver(vs[1]), ver(vs[2])];
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    let m: [u8; 14] = sym("response");
    let n = choose(15, "length") as usize;
    answer(&[&m[..n]]);
    let r = ctx.send_receive_spdm_version().is_ok();
    check(sent() == 1 && eq(msg(0), &[0x10, 0x84, 0, 0]), "GET_VERSION is sent, with version 1.0");
    let c = &ctx.common;
    let cnt = if n >= 6 { m[5] as usize } else { 0 };
    let form = n >= 6 && m[0] == 0x10 && m[1] == 4 && cnt >= 1 && cnt <= 3 && n >= 6 + 2 * cnt;
    // highest version both list
    let mut top = 0u8;
    if form {
        let cnt = conc(cnt);
        for i in 0..cnt {
            let x = m[7 + 2 * i];
            let ours = vs.iter().any(|y| 0x10 + y == x);
            if ours & (x > top) {
                top = x;
            }
        }
    }
    check(r == (top != 0), "VERSION is accepted exactly when it lists a version of ours");
    if r {
        cover("accepted");
        check(c.negotiate_info.spdm_version_sel.get_u8() == top, "the highest version both sides list is used");
        check(eq(a_of(c), &cat(&[&[0x10, 0x84, 0, 0], &m[..6 + 2 * cnt]])), "transcript A is this exchange");
    } else {
        cover("refused");
        check(!matches!(c.negotiate_info.spdm_version_sel, SpdmVersion::SpdmVersion10 | SpdmVersion::SpdmVersion11 | SpdmVersion::SpdmVersion12), "no version is selected otherwise");
        check(a_of(c).is_empty(), "nothing is put into the transcript otherwise");
    }
    core::mem::forget(ctx);
}

const CERT: u32 = 1 << 1;
const CHAL: u32 = 1 << 2;
const MEAS: u32 = 3 << 3;
const MEAS_SIG: u32 = 1 << 4;
const FRESH: u32 = 1 << 5;
const ENCRYPT: u32 = 1 << 6;
const MAC: u32 = 1 << 7;
const MUT: u32 = 1 << 8;
const KEX: u32 = 1 << 9;
const PSK: u32 = 3 << 10;
const ENCAP: u32 = 1 << 12;
const HBEAT: u32 = 1 << 13;
const KUPD: u32 = 1 << 14;
const CLEAR: u32 = 1 << 15;
const PUBKEY: u32 = 1 << 16;
const ALIAS: u32 = 1 << 18;
const SET: u32 = 1 << 19;
const CSR: u32 = 1 << 20;
const RESET: u32 = 1 << 21;
/// Combinations of responder capabilities DSP0274 allows.
fn flags_allowed(f: u32, v: u8) -> bool {
    let has = |b: u32| f & b != 0;
    let all = |b: u32| f & b == b;
    let mut bad = all(MEAS) | (!has(MEAS) & has(FRESH));
    if v < 0x11 {
        bad |= if has(MEAS_SIG) { !has(CERT) } else { has(CERT) != has(CHAL) };
    } else {
        let sess = has(KEX | PSK);
        bad |= all(PSK) | (sess & !has(MAC)) | (!sess & has(MAC | ENCRYPT | CLEAR | HBEAT | KUPD)) | (!has(KEX) & has(PSK) & has(CLEAR)) | all(CERT | PUBKEY);
        bad |= has(CERT | PUBKEY) & !has(CHAL | KEX | MEAS_SIG);
        bad |= !has(CERT | PUBKEY) & has(CHAL | KEX | MEAS_SIG | MUT);
        bad |= (v == 0x11) & has(MUT) & !has(ENCAP);
    }
    if v >= 0x12 {
        bad |= (!has(CERT) & has(ALIAS | SET)) | (has(CSR) & !has(SET)) | (has(RESET) & !has(CSR | SET));
    }
    !bad
}

/// param 0: version
#[no_mangle]
pub extern "C" fn h_rq_cap() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    let v = ver(param(0) as u8);
    let x = v.get_u8();
    let (req, ct, dts, max) = (sym_u32("caps"), sym_u8("ct"), sym_u32("transfer size"), sym_u32("message size"));
    cfg.req_capabilities = SpdmRequestCapabilityFlags::from_bits_truncate(req);
    let req = cfg.req_capabilities.bits();
    cfg.req_ct_exponent = ct;
    cfg.data_transfer_size = dts;
    cfg.max_spdm_msg_size = max;
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    ctx.common.negotiate_info.spdm_version_sel = v;
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let m: [u8; 22] = sym("response");
    let n = choose(23, "length") as usize;
    answer(&[&m[..n]]);
    let r = ctx.send_receive_spdm_capability().is_ok();
    check(sent() == 1, "one request");
    let mut q = cat(&[&[x, 0xE1, 0, 0]]);
    if x >= 0x11 {
        q = cat(&[&q, &[0, ct, 0, 0], &req.to_le_bytes()]);
    }
    if x >= 0x12 {
        q = cat(&[&q, &dts.to_le_bytes(), &max.to_le_bytes()]);
    }
    check(eq(msg(0), &q), "GET_CAPABILITIES carries the configured values");
    let need = if x >= 0x12 { 20 } else { 12 };
    let mut good = n >= need && m[0] == x && m[1] == 0x61;
    if good {
        good = flags_allowed(le32(&m, 8), x);
        if x >= 0x12 {
            good &= (le32(&m, 12) >= 42) & (le32(&m, 16) >= le32(&m, 12));
        }
    }
    check(r == good, "CAPABILITIES is accepted exactly when well-formed and free of contradictions");
    let c = &ctx.common;
    let g = &c.negotiate_info;
    if r {
        cover("accepted");
        check(g.rsp_capabilities_sel.bits() == le32(&m, 8) & SpdmResponseCapabilityFlags::VALID_MASK.bits() && g.req_capabilities_sel.bits() == req, "both sides' capabilities are recorded");
        check(g.rsp_ct_exponent_sel == m[5] && g.req_ct_exponent_sel == ct, "timing is recorded");
        if x >= 0x12 {
            check(g.rsp_data_transfer_size_sel == le32(&m, 12) && g.rsp_max_spdm_msg_size_sel == le32(&m, 16) && g.req_data_transfer_size_sel == dts && g.req_max_spdm_msg_size_sel == max, "sizes are recorded");
        } else {
            check(g.rsp_data_transfer_size_sel == 0 && g.req_data_transfer_size_sel == 0, "no sizes before 1.2");
        }
        check(eq(a_of(c), &cat(&[&[0xAA; 7], &q, &m[..need]])), "the exchange is appended to transcript A");
    } else {
        cover("refused");
        check(g.rsp_capabilities_sel.bits() == 0 && g.req_capabilities_sel.bits() == 0, "capabilities of a refused response are not used");
        check(eq(a_of(c), &[0xAA; 7]), "a refused response is not part of transcript A");
    }
    core::mem::forget(ctx);
}

fn bits(on: bool, name: &str, conc: u32) -> u32 {
    if on {
        sym_u32(name)
    } else {
        conc
    }
}
fn put(m: &mut [u8], at: usize, v: u32, n: usize) {
    m[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
}
fn one(x: u32) -> bool {
    x & x.wrapping_sub(1) == 0
}
struct Cfg {
    h: u32,
    a: u32,
    d: u32,
    e: u32,
    q: u32,
    k: u32,
    s: u32,
    o: u32,
}
fn config(cfg: &mut SpdmConfigInfo, g: &Cfg) {
    cfg.base_hash_algo = SpdmBaseHashAlgo::from_bits_truncate(g.h);
    cfg.base_asym_algo = SpdmBaseAsymAlgo::from_bits_truncate(g.a);
    cfg.dhe_algo = SpdmDheAlgo::from_bits_truncate(g.d as u16);
    cfg.aead_algo = SpdmAeadAlgo::from_bits_truncate(g.e as u16);
    cfg.req_asym_algo = SpdmReqAsymAlgo::from_bits_truncate(g.q as u16);
    cfg.key_schedule_algo = SpdmKeyScheduleAlgo::from_bits_truncate(g.k as u16);
    cfg.measurement_specification = SpdmMeasurementSpecification::from_bits_truncate(g.s as u8);
    cfg.opaque_support = SpdmOpaqueSupport::from_bits_truncate(g.o as u8);
}
fn request(v: u8, g: &Cfg) -> Vec<u8> {
    let mut q = Vec::new();
    let v11 = v >= 0x11;
    q.extend_from_slice(&[v, 0xE3, if v11 { 4 } else { 0 }, 0, if v11 { 48 } else { 32 }, 0, g.s as u8, if v >= 0x12 { g.o as u8 } else { 0 }]);
    q.extend_from_slice(&g.a.to_le_bytes());
    q.extend_from_slice(&g.h.to_le_bytes());
    q.extend_from_slice(&[0; 16]);
    if v11 {
        q.extend_from_slice(&[2, 0x20, g.d as u8, (g.d >> 8) as u8, 3, 0x20, g.e as u8, (g.e >> 8) as u8, 4, 0x20, g.q as u8, (g.q >> 8) as u8, 5, 0x20, g.k as u8, 0]);
    }
    q
}

/// param 0: group whose sets and selections are arbitrary, param 1: version
#[no_mangle]
pub extern "C" fn h_rq_alg() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let grp = param(0);
    let v = ver(param(1) as u8);
    let x = v.get_u8();
    let (v11, v12) = (x >= 0x11, x >= 0x12);
    let (ch, sh) = (bits(grp == 0, "our hashes", 1) & 7, bits(grp == 0, "selected hash", 1));
    let (ca, sa) = (bits(grp == 1, "our signatures", 0x10) & 0xff, bits(grp == 1, "selected signature", 0x10));
    let (cd, sd) = (bits(grp == 2, "our dhe", 8) & 0x18, bits(grp == 2, "selected dhe", 8) & 0xffff);
    let (ce, se) = (bits(grp == 3, "our aead", 1) & 7, bits(grp == 3, "selected aead", 1) & 0xffff);
    let (cq, sq) = (bits(grp == 4, "our req signatures", 0x10) & 0xff, bits(grp == 4, "selected req signature", 0x10) & 0xffff);
    let (ck, sk) = (bits(grp == 5, "our key schedules", 1) & 1, bits(grp == 5, "selected key schedule", 1) & 0xffff);
    let (cs, ss) = (bits(grp == 6, "our spec", 1) & 1, bits(grp == 6, "selected spec", 1) & 0xff);
    let (co, so) = (bits(grp == 7, "our opaque", 2) & 2, bits(grp == 7, "selected opaque", 2) & 0xff);
    let sm = bits(grp == 6, "measurement hash", 2);
    let mut cfg = SpdmConfigInfo::default();
    let g = Cfg { h: ch, a: ca, d: cd, e: ce, q: cq, k: ck, s: cs, o: co };
    config(&mut cfg, &g);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    ctx.common.negotiate_info.spdm_version_sel = v;
    let rc = SpdmResponseCapabilityFlags::from_bits_truncate(sym_u32("responder capabilities"));
    let qc = SpdmRequestCapabilityFlags::from_bits_truncate(sym_u32("requester capabilities"));
    ctx.common.negotiate_info.rsp_capabilities_sel = rc;
    ctx.common.negotiate_info.req_capabilities_sel = qc;
    let (rc, qc) = (rc.bits(), qc.bits());
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let pres = if v11 { if grp >= 2 && grp <= 5 { choose(16, "structures") as usize } else { 15 } } else { 0 };
    let k = (pres & 1) + (pres >> 1 & 1) + (pres >> 2 & 1) + (pres >> 3);
    let n = 36 + 4 * k;
    let mut m = [0u8; 52];
    m[0] = x;
    m[1] = 0x63;
    m[2] = if v11 { k as u8 } else { sym_u8("param1") };
    m[3] = sym_u8("param2");
    put(&mut m, 4, n as u32, 2);
    m[6] = ss as u8;
    m[7] = so as u8;
    put(&mut m, 8, sm, 4);
    put(&mut m, 12, sa, 4);
    put(&mut m, 16, sh, 4);
    let rsv: [u8; 12] = sym("reserved");
    m[20..32].copy_from_slice(&rsv);
    let mut at = 36;
    for (i, (t, y)) in [(2u8, sd), (3, se), (4, sq), (5, sk)].iter().enumerate() {
        if pres >> i & 1 == 1 {
            m[at] = *t;
            m[at + 1] = 0x20;
            put(&mut m, at + 2, *y, 2);
            at += 4;
        }
    }
    answer(&[&m[..n]]);
    let r = ctx.send_receive_spdm_algorithm().is_ok();
    check(sent() == 1 && eq(msg(0), &request(x, &g)), "NEGOTIATE_ALGORITHMS offers the configured algorithms");
    // what counts of the selections
    let (sh, sa, sd, se, sq, sk, ss, so, sm) = (sh & 7, sa & 0xff, sd & 0x18, se & 7, sq & 0xff, sk & 1, ss & 1, if v12 { so & 2 } else { 0 }, sm & 0xff);
    let both = |r: u32, q: u32| (rc & r != 0) & (qc & q != 0);
    let has = |i: usize| pres >> i & 1 == 1;
    let psk = both(PSK, 1 << 10);
    let mut good = (sh != 0) & (sa != 0) & one(sh) & one(sa) & one(sm);
    good &= (sh & !ch == 0) & (sa & !ca == 0) & (ss & !cs == 0) & (so & !co == 0);
    good &= (rc & MEAS == 0) | ((ss != 0) & (sm != 0));
    if v12 {
        good &= (rc & (KEX | PSK) == 0) | (so != 0);
    }
    if has(0) {
        good &= one(sd) & (sd & !cd == 0) & (!both(KEX, KEX) | (sd != 0));
    }
    if has(1) {
        good &= one(se) & (se & !ce == 0) & (!(both(ENCRYPT, ENCRYPT) | both(MAC, MAC)) | (se != 0));
    }
    if has(2) {
        good &= one(sq) & (sq & !cq == 0) & (!both(MUT, MUT) | (sq != 0));
    }
    if has(3) {
        good &= (sk & !ck == 0) & (!(both(KEX, KEX) | psk) | (sk != 0));
    }
    check(r == good, "ALGORITHMS is accepted exactly when it selects at most one of what was offered of each kind, and what the capabilities need");
    let c = &ctx.common;
    if r {
        cover("accepted");
        let g = &c.negotiate_info;
        let sel = |i: usize, y: u32| if has(i) { y } else { 0 };
        check(
            g.base_hash_sel.bits() == sh && g.base_asym_sel.bits() == sa && g.dhe_sel.bits() as u32 == sel(0, sd) && g.aead_sel.bits() as u32 == sel(1, se) && g.req_asym_sel.bits() as u32 == sel(2, sq)
                && g.key_schedule_sel.bits() as u32 == sel(3, sk) && g.measurement_hash_sel.bits() == sm && g.measurement_specification_sel.bits() as u32 == ss && g.opaque_data_support.bits() as u32 == so,
            "the selection received is the selection used",
        );
        check(eq(a_of(c), &cat(&[&[0xAA; 7], msg(0), &m[..n]])), "the exchange is appended to transcript A");
    } else {
        cover("refused");
        check(eq(a_of(c), &[0xAA; 7]), "a refused response is not part of transcript A");
    }
    core::mem::forget(ctx);
}

/// Any bytes in answer to NEGOTIATE_ALGORITHMS. param 0: version
#[no_mangle]
pub extern "C" fn h_rq_alg_form() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let v = ver(param(0) as u8);
    let x = v.get_u8();
    let mut cfg = SpdmConfigInfo::default();
    let g = Cfg { h: 7, a: 0xff, d: 0x18, e: 7, q: 0xff, k: 1, s: 1, o: 2 };
    config(&mut cfg, &g);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    ctx.common.negotiate_info.spdm_version_sel = v;
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let mut m: [u8; 54] = sym("response");
    m[12..20].copy_from_slice(&[0x10, 0, 0, 0, 1, 0, 0, 0]);
    m[8..12].copy_from_slice(&[2, 0, 0, 0]);
    let n = choose(55, "length") as usize;
    answer(&[&m[..n]]);
    let r = ctx.send_receive_spdm_algorithm().is_ok();
    let cnt = if x >= 0x11 { m[2] as usize } else { 0 };
    let mut good = cnt <= 4 && n >= 36 && m[0] == x && m[1] == 0x63 && le16(&m, 4) == 36 + 4 * cnt && m[32] == 0 && m[33] == 0 && n >= 36 + 4 * cnt;
    if good {
        let mut last = 0u8;
        for i in 0..cnt {
            let t = m[36 + 4 * i];
            good = good & (t >= 2) & (t <= 5) & (t > last) & (m[37 + 4 * i] == 0x20);
            let s = le16(&m, 38 + 4 * i) as u32;
            good = good & (((t == 2) & one(s & 0x18)) | ((t == 3) & one(s & 7)) | ((t == 4) & one(s & 0xff)) | (t == 5));
            last = t;
        }
    }
    check(r == good, "ALGORITHMS is accepted exactly when it is well-formed");
    if r {
        cover("accepted");
        check(eq(a_of(&ctx.common), &cat(&[&[0xAA; 7], msg(0), &m[..36 + 4 * cnt]])), "the exchange is appended to transcript A");
    } else {
        cover("refused");
        check(eq(a_of(&ctx.common), &[0xAA; 7]), "a refused response is not part of transcript A");
    }
    core::mem::forget(ctx);
}

/// A second connection starts from nothing, whatever the first one was.
#[no_mangle]
pub extern "C" fn h_rq_again() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    cfg.spdm_version = [ver(0), ver(1), ver(2)];
    let g = Cfg { h: 7, a: 0xff, d: 0x18, e: 7, q: 0xff, k: 1, s: 1, o: 2 };
    config(&mut cfg, &g);
    cfg.data_transfer_size = 400;
    cfg.max_spdm_msg_size = 400;
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    negotiate(&mut ctx.common, ver(2));
    caps_rsp(&mut ctx.common, 0x3f6);
    caps_req(&mut ctx.common, 0x2c6);
    let g = &mut ctx.common.negotiate_info;
    g.rsp_data_transfer_size_sel = 45;
    g.req_data_transfer_size_sel = 50;
    g.rsp_ct_exponent_sel = 9;
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let _ = ctx.common.append_message_b(&[0xBB; 5]);
    let _ = ctx.common.append_message_c(&[0xCC; 5]);
    let _ = ctx.common.append_message_m(None, &[0xDD; 5]);
    ctx.common.runtime_info.need_measurement_summary_hash = true;
    let _ = ctx.common.session[0].setup(0x12345678);
    ctx.common.session[0].set_session_state(SpdmSessionState::SpdmSessionEstablished);
    ctx.common.peer_info.peer_cert_chain[1] = Some(chain(3, 8));
    let x = 0x10 + choose(3, "version");
    let k = if x > 0x10 { choose(3, "structures") as usize } else { 0 };
    let cap = [x, 0x61, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 64, 0, 0, 0, 64, 0, 0, 0];
    let mut alg = [0u8; 44];
    alg[0] = x;
    alg[1] = 0x63;
    alg[2] = k as u8;
    alg[4] = 36 + 4 * k as u8;
    alg[12] = 0x80;
    alg[16] = 2;
    alg[36..44].copy_from_slice(&[3, 0x20, 2, 0, 5, 0x20, 1, 0]);
    let vr = [0x10, 4, 0, 0, 0, 1, 0, x];
    let cap = &cap[..if x == 0x12 { 20 } else { 12 }];
    let alg = &alg[..36 + 4 * k];
    answer(&[&vr, cap, alg]);
    let r = ctx.init_connection().is_ok();
    check(r && sent() == 3, "the connection is negotiated");
    let c = &ctx.common;
    let g = &c.negotiate_info;
    check(eq(a_of(c), &cat(&[msg(0), &vr, msg(1), cap, msg(2), alg])), "transcript A is this negotiation");
    check(m1m2(&c).is_none() && l1l2(&c).is_none() && live_hashes() == 0, "transcripts in progress are dropped");
    check(g.spdm_version_sel.get_u8() == x && g.rsp_capabilities_sel.bits() == 0 && g.rsp_ct_exponent_sel == 3, "version and capabilities are the new ones");
    check(g.base_hash_sel.bits() == 2 && g.base_asym_sel.bits() == 0x80, "hash and signature are the new ones");
    check(
        g.dhe_sel.bits() == 0 && g.aead_sel.bits() == if k > 0 { 2 } else { 0 } && g.req_asym_sel.bits() == 0 && g.key_schedule_sel.bits() == if k > 1 { 1 } else { 0 } && g.measurement_hash_sel.bits() == 0
            && g.measurement_specification_sel.bits() == 0 && g.opaque_data_support.bits() == 0,
        "what the new negotiation leaves out is not taken from the old one",
    );
    if x == 0x12 {
        check(g.rsp_data_transfer_size_sel == 64 && g.req_data_transfer_size_sel == 400, "sizes are the new ones");
    } else {
        check(g.rsp_data_transfer_size_sel == 0 && g.req_data_transfer_size_sel == 0, "sizes are not taken from the old negotiation");
    }
    check(c.session[0].get_session_id() == 0 && c.session[0].get_session_state() == SpdmSessionState::SpdmSessionNotStarted, "sessions of the old connection are ended");
    check(c.peer_info.peer_cert_chain[1].is_none(), "certificates of the old connection are forgotten");
    cover("again");
    core::mem::forget(ctx);
}

/// A request that cannot be sent or is never answered, or answered with ERROR, negotiates nothing. param: which
#[no_mangle]
pub extern "C" fn h_rq_silent() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    cfg.spdm_version = [ver(0), ver(1), ver(2)];
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    let v = any_ver();
    if param(0) > 0 {
        ctx.common.negotiate_info.spdm_version_sel = v;
        let _ = ctx.common.append_message_a(&[0xAA; 7]);
    }
    let e: [u8; 4] = sym("error");
    match choose(3, "how") {
        0 => w().io_fail = 0,
        1 => answer(&[]),
        _ => {
            assume(e[1] == 0x7f);
            answer(&[&e]);
        }
    }
    let r = match param(0) {
        0 => ctx.send_receive_spdm_version(),
        1 => ctx.send_receive_spdm_capability(),
        _ => ctx.send_receive_spdm_algorithm(),
    };
    check(r.is_err(), "the failure is reported");
    let c = &ctx.common;
    let g = &c.negotiate_info;
    check(g.base_hash_sel.bits() == 0 && g.base_asym_sel.bits() == 0 && g.rsp_capabilities_sel.bits() == 0, "nothing is negotiated");
    check(if param(0) > 0 { g.spdm_version_sel == v && eq(a_of(c), &[0xAA; 7]) } else { a_of(c).is_empty() }, "transcript A stays");
    cover("failed");
    core::mem::forget(ctx);
}
