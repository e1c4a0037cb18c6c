//! Responder negotiation: GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS.
use crate::env::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::protocol::*;
use spdmlib::responder::*;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_version", h_version),
    ("h_cap", h_cap),
    ("h_cap_state", h_cap_state),
    ("h_alg", h_alg),
    ("h_alg_form", h_alg_form),
    ("h_cert_chain_hash", h_cert_chain_hash),
];

fn st(c: &SpdmContext) -> u8 {
    c.runtime_info.get_connection_state().get_u8()
}

#[no_mangle]
pub extern "C" fn h_version() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    let vs = [choose(3, "v0"), choose(3, "v1"), choose(3, "v2")];
    cfg.spdm_version = [ver(vs[0]), ver(vs[1]), ver(vs[2])];
    let mut ctx = ResponderContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    // history: anything negotiated, transcripts under way, sessions up
    let st0 = choose(7, "state");
    set_state(&mut ctx.common, st0);
    let v = any_ver();
    negotiate(&mut ctx.common, v);
    ctx.common.negotiate_info.req_data_transfer_size_sel = 64;
    ctx.common.negotiate_info.rsp_data_transfer_size_sel = 64;
    ctx.common.negotiate_info.termination_policy_set = true;
    caps_rsp(&mut ctx.common, 0x3f6);
    caps_req(&mut ctx.common, 0x2c6);
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let _ = ctx.common.append_message_b(&[0xBB; 5]);
    let _ = ctx.common.append_message_m(None, &[0xDD; 5]);
    let id = sym_u32("session");
    assume(id != 0);
    let _ = ctx.common.session[0].setup(id);
    ctx.common.session[0].set_session_state(SpdmSessionState::SpdmSessionEstablished);
    ctx.common.session[0].set_use_psk(true);
    ctx.common.session[0].heartbeat_period = 9;
    let _ = ctx.common.session[1].setup(id ^ 0x10000 | 1);
    ctx.common.session[1].set_session_state(SpdmSessionState::SpdmSessionHandshaking);
    ctx.common.session[1].set_crypto_param(ctx.common.negotiate_info.base_hash_sel, ctx.common.negotiate_info.dhe_sel, ctx.common.negotiate_info.aead_sel, ctx.common.negotiate_info.key_schedule_sel);
    let id1 = ctx.common.session[1].get_session_id();
    if id1 != id {
        let _ = ctx.common.append_message_k(id1, &[0xCC; 5]);
    }
    ctx.common.runtime_info.set_last_session_id(Some(id1));
    ctx.common.peer_info.peer_cert_chain[1] = Some(chain(3, 8));

    let mut m: [u8; 6] = sym("request");
    m[1] = 0x84;
    let n = 2 + choose(5, "length") as usize;
    let _ = ctx.dispatch_message(&m[..n]);
    check(sent() == 1, "GET_VERSION gets exactly one answer");
    let r = msg(0);
    let c = &ctx.common;
    if n >= 4 && m[0] == 0x10 {
        cover("VERSION");
        let e = [0x10, 4, 0, 0, 0, 3, 0, 0x10 + vs[0], 0, 0x10 + vs[1], 0, 0x10 + vs[2]];
        check(eq(r, &e), "VERSION lists the configured versions");
        check(st(c) == 1, "state after VERSION");
        check(eq(c.runtime_info.message_a.as_ref(), &cat(&[&m[..4], &e])), "transcript A restarts with this exchange");
        check(live_hashes() == 0 && m1m2(c).is_none() && l1l2(c).is_none(), "transcripts in progress are dropped");
        let g = &c.negotiate_info;
        check(g.spdm_version_sel.get_u8() == 0 && g.req_capabilities_sel.bits() == 0 && g.rsp_capabilities_sel.bits() == 0, "versions and capabilities negotiated before are forgotten");
        check(
            g.base_hash_sel.bits() == 0 && g.base_asym_sel.bits() == 0 && g.dhe_sel.bits() == 0 && g.aead_sel.bits() == 0 && g.req_asym_sel.bits() == 0
                && g.key_schedule_sel.bits() == 0 && g.measurement_hash_sel.bits() == 0 && g.measurement_specification_sel.bits() == 0 && g.opaque_data_support.bits() == 0,
            "algorithms negotiated before are forgotten",
        );
        check(g.req_data_transfer_size_sel == 0 && g.rsp_data_transfer_size_sel == 0 && !g.termination_policy_set, "sizes and policy negotiated before are forgotten");
        check(c.runtime_info.get_last_session_id().is_none(), "no session being set up remains");
        let mut clean = c.peer_info.peer_cert_chain[1].is_none();
        for s in c.session.iter() {
            clean = clean && s.get_session_id() == 0 && s.get_session_state() == SpdmSessionState::SpdmSessionNotStarted
                && !s.get_use_psk() && th_of(s).is_none() && s.runtime_info.message_a.as_ref().is_empty();
        }
        check(clean, "all sessions are terminated");
    } else {
        cover("refused");
        check(r.len() == 4 && r[1] == 0x7f && r[0] == v.get_u8() && r[3] == 0, "refusal is an ERROR message");
        check(r[2] == if m[0] != 0x10 { 0x41 } else { 1 }, "error code of the refusal");
        check(st(c) == st0, "refusal leaves the state");
        check(eq(c.runtime_info.message_a.as_ref(), &[0xAA; 7]), "refusal leaves transcript A");
        check(c.session[0].get_session_id() == id && c.session[0].get_session_state() == SpdmSessionState::SpdmSessionEstablished, "refusal leaves the sessions");
        check(c.negotiate_info.base_hash_sel.bits() == 1 && c.negotiate_info.spdm_version_sel == v, "refusal leaves what was negotiated");
    }
    core::mem::forget(ctx);
}

const CERT: u32 = 1 << 1;
const CHAL: u32 = 1 << 2;
const ENCRYPT: u32 = 1 << 6;
const MAC: u32 = 1 << 7;
const MUT: u32 = 1 << 8;
const KEX: u32 = 1 << 9;
const PSK: u32 = 1 << 10;
const PSK_RSVD: u32 = 1 << 11;
const ENCAP: u32 = 1 << 12;
const HBEAT: u32 = 1 << 13;
const KUPD: u32 = 1 << 14;
const CLEAR: u32 = 1 << 15;
const PUBKEY: u32 = 1 << 16;
pub const REQ_MASK: u32 = 0x3FFC6;

/// Combinations of requester capabilities DSP0274 allows.
fn flags_allowed(f: u32, v: u8) -> bool {
    let has = |b: u32| f & b != 0;
    let sess = has(KEX | PSK);
    let bad = has(PSK_RSVD)
        | (sess & !has(MAC))
        | (!sess & has(MAC | ENCRYPT | CLEAR | HBEAT | KUPD))
        | (!has(KEX) & has(PSK) & has(CLEAR))
        | (has(CERT) & has(PUBKEY))
        | (has(CERT | PUBKEY) & !has(CHAL | KEX))
        | (!has(CERT | PUBKEY) & has(CHAL | MUT))
        | ((v == 0x11) & has(MUT) & !has(ENCAP));
    !bad
}

#[no_mangle]
pub extern "C" fn h_cap() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    let vs = param(0);
    cfg.spdm_version = [SpdmVersion::SpdmVersion10, SpdmVersion::SpdmVersion11, if vs == 0 { SpdmVersion::SpdmVersion12 } else { SpdmVersion::SpdmVersion11 }];
    let rsp = sym_u32("rsp caps");
    cfg.rsp_capabilities = SpdmResponseCapabilityFlags::from_bits_truncate(rsp);
    let rsp = cfg.rsp_capabilities.bits();
    let ct = sym_u8("rsp ct");
    cfg.rsp_ct_exponent = ct;
    let dts = sym_u32("rsp dts");
    let max = sym_u32("rsp max");
    cfg.data_transfer_size = dts;
    cfg.max_spdm_msg_size = max;
    let mut ctx = ResponderContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    set_state(&mut ctx.common, 1);
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let mut m: [u8; 22] = sym("request");
    m[1] = 0xE1;
    let n = 2 + choose(21, "length") as usize;
    let _ = ctx.dispatch_message(&m[..n]);
    check(sent() == 1, "GET_CAPABILITIES gets exactly one answer");
    let r = msg(0);
    let c = &ctx.common;
    let g = &c.negotiate_info;
    let v = m[0];
    let offered = v == 0x10 || v == 0x11 || (v == 0x12 && vs == 0);
    let need = if v == 0x10 { 4 } else if v == 0x11 { 12 } else { 20 };
    let flags = if v >= 0x11 { le32(&m, 8) & REQ_MASK } else { 0 };
    let good = offered && n >= need && (v < 0x11 || flags_allowed(flags, v)) && (v < 0x12 || (le32(&m, 12) >= 42 && le32(&m, 16) >= le32(&m, 12)));
    if !offered {
        cover("version not offered");
        check(r.len() == 4 && r[1] == 0x7f, "a version the responder did not advertise is refused");
        check(st(c) == 1, "state unchanged");
    } else if !good {
        cover("refused");
        check(r.len() == 4 && r[1] == 0x7f && r[2] == 1 && r[3] == 0, "malformed or contradictory capabilities are refused as invalid request");
        check(st(c) == 1, "refusal leaves the state");
        check(eq(c.runtime_info.message_a.as_ref(), &[0xAA; 7]), "refusal leaves transcript A");
    } else {
        check(r[1] == 0x61, "well-formed capabilities are accepted");
        cover(if v == 0x10 { "1.0" } else if v == 0x11 { "1.1" } else { "1.2" });
        let mut e = cat(&[&[v, 0x61, 0, 0, 0, ct, 0, 0], &rsp.to_le_bytes()]);
        if v >= 0x12 {
            e = cat(&[&e, &dts.to_le_bytes(), &max.to_le_bytes()]);
        }
        check(eq(r, &e), "CAPABILITIES carries the configured values");
        check(st(c) == 2, "state after CAPABILITIES");
        check(eq(c.runtime_info.message_a.as_ref(), &cat(&[&[0xAA; 7], &m[..need], &e])), "exchange appended to transcript A");
        check(g.spdm_version_sel.get_u8() == v && g.req_capabilities_sel.bits() == flags && g.rsp_capabilities_sel.bits() == rsp, "version and capabilities recorded");
        check(g.rsp_ct_exponent_sel == ct && g.req_ct_exponent_sel == if v >= 0x11 { m[5] } else { 0 }, "timing recorded");
        if v >= 0x12 {
            check(g.req_data_transfer_size_sel == le32(&m, 12) && g.req_max_spdm_msg_size_sel == le32(&m, 16) && g.rsp_data_transfer_size_sel == dts && g.rsp_max_spdm_msg_size_sel == max, "sizes recorded");
        } else {
            check(g.req_data_transfer_size_sel == 0 && g.req_max_spdm_msg_size_sel == 0, "no sizes before 1.2");
        }
    }
    core::mem::forget(ctx);
}

/// In any other state nothing is negotiated, and CAPABILITIES/ALGORITHMS are not sent.
#[no_mangle]
pub extern "C" fn h_cap_state() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let alg = choose(2, "which") == 1;
    let s = choose(7, "state");
    assume(s != if alg { 2 } else { 1 });
    set_state(&mut ctx.common, s);
    let v = any_ver();
    negotiate(&mut ctx.common, v);
    caps_req(&mut ctx.common, 0x2c6);
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let mut m: [u8; 48] = sym("request");
    m[1] = if alg { 0xE3 } else { 0xE1 };
    let n = 2 + choose(47, "length") as usize;
    let _ = ctx.dispatch_message(&m[..n]);
    let c = &ctx.common;
    let g = &c.negotiate_info;
    check(sent() == 1 && msg(0).len() == 4, "one answer");
    check(eq(msg(0), &[v.get_u8(), 0x7f, 4, 0]), "out of order request answered with ERROR(UnexpectedRequest)");
    check(st(c) == s && eq(c.runtime_info.message_a.as_ref(), &[0xAA; 7]), "state and transcript unchanged");
    check(
        g.spdm_version_sel == v && g.req_capabilities_sel.bits() == 0x2c6 && g.base_hash_sel.bits() == 1 && g.base_asym_sel.bits() == 0x10 && g.dhe_sel.bits() == 8 && g.aead_sel.bits() == 1
            && g.req_asym_sel.bits() == 0x10 && g.key_schedule_sel.bits() == 1 && g.measurement_hash_sel.bits() == 2 && g.req_data_transfer_size_sel == 0,
        "negotiated parameters unchanged",
    );
    cover(if alg { "algorithms" } else { "capabilities" });
    core::mem::forget(ctx);
}

/// first entry of `prio` in both sets
#[inline(never)]
fn best(a: u32, b: u32, prio: &[u32]) -> u32 {
    let both = a & b;
    let mut r = 0u32;
    let mut taken = 0u32;
    for p in prio {
        let hit = (both & p != 0) as u32 & (1 - taken);
        r |= p * hit;
        taken |= hit;
    }
    r
}
const ASYM: &[u32] = &[0x80, 0x10, 0x40, 8, 2, 0x20, 4, 1];
const HASHES: &[u32] = &[4, 2, 1];
const DHES: &[u32] = &[0x10, 8];
const AEADS: &[u32] = &[2, 1, 4];
fn bits(on: bool, name: &str, conc: u32) -> u32 {
    if on {
        sym_u32(name)
    } else {
        conc
    }
}
fn set(m: &mut [u8], at: usize, v: u32, n: usize) {
    m[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
}

/// Reconnects after an earlier connection that had everything selected.
fn connect(ctx: &mut ResponderContext, v: SpdmVersion) {
    ctx.common.config_info.spdm_version = [ver(0), ver(1), ver(2)];
    set_state(&mut ctx.common, 5);
    negotiate(&mut ctx.common, ver(1));
    let g = &mut ctx.common.negotiate_info;
    g.base_hash_sel = SpdmBaseHashAlgo::TPM_ALG_SHA_384;
    g.base_asym_sel = SpdmBaseAsymAlgo::TPM_ALG_RSASSA_3072;
    g.req_asym_sel = SpdmReqAsymAlgo::TPM_ALG_RSASSA_3072;
    g.dhe_sel = SpdmDheAlgo::SECP_384_R1;
    g.aead_sel = SpdmAeadAlgo::AES_256_GCM;
    caps_rsp(&mut ctx.common, 0x3f6);
    caps_req(&mut ctx.common, 0x2c6);
    let _ = ctx.dispatch_message(&[0x10, 0x84, 0, 0]);
    let x = v.get_u8();
    let m = [x, 0xE1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 64, 0, 0, 0, 64, 0, 0, 0];
    let _ = ctx.dispatch_message(&m[..if x == 0x10 { 4 } else if x == 0x11 { 12 } else { 20 }]);
    check(sent() == 2 && msg(0)[1] == 4 && msg(1)[1] == 0x61 && st(&ctx.common) == 2, "version and capabilities are negotiated");
}

/// param 0: algorithm group whose sets are arbitrary, param 1: version
#[no_mangle]
pub extern "C" fn h_alg() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let grp = param(0);
    let v = ver(param(1) as u8);
    let v12 = v == SpdmVersion::SpdmVersion12;
    let v11 = v != SpdmVersion::SpdmVersion10;
    let mut cfg = SpdmConfigInfo::default();
    let (ch, rh) = (bits(grp == 0, "our hashes", 1) & 7, bits(grp == 0, "their hashes", 1));
    let (ca, ra) = (bits(grp == 1, "our signatures", 0x10) & 0xff, bits(grp == 1, "their signatures", 0x10));
    let (cd, rd) = (bits(grp == 2, "our dhe", 8) & 0x18, bits(grp == 2, "their dhe", 8));
    let (ce, re) = (bits(grp == 3, "our aead", 1) & 7, bits(grp == 3, "their aead", 1));
    let (cq, rq) = (bits(grp == 4, "our req signatures", 0x10) & 0xff, bits(grp == 4, "their req signatures", 0x10));
    let (ck, rk) = (bits(grp == 5, "our key schedules", 1) & 1, bits(grp == 5, "their key schedules", 1));
    let (cs, rs) = (bits(grp == 5, "our spec", 1) & 1, bits(grp == 5, "their spec", 1));
    let (co, ro) = (bits(grp == 6, "our opaque", 2) & 2, bits(grp == 6, "their opaque", 2) & 0xff);
    let cm = bits(grp == 6, "our measurement hash", 2) & 0xff;
    cfg.base_hash_algo = SpdmBaseHashAlgo::from_bits_truncate(ch);
    cfg.base_asym_algo = SpdmBaseAsymAlgo::from_bits_truncate(ca);
    cfg.dhe_algo = SpdmDheAlgo::from_bits_truncate(cd as u16);
    cfg.aead_algo = SpdmAeadAlgo::from_bits_truncate(ce as u16);
    cfg.req_asym_algo = SpdmReqAsymAlgo::from_bits_truncate(cq as u16);
    cfg.key_schedule_algo = SpdmKeyScheduleAlgo::from_bits_truncate(ck as u16);
    cfg.measurement_specification = SpdmMeasurementSpecification::from_bits_truncate(cs as u8);
    cfg.measurement_hash_algo = SpdmMeasurementHashAlgo::from_bits_truncate(cm);
    cfg.opaque_support = SpdmOpaqueSupport::from_bits_truncate(co as u8);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    connect(&mut ctx, v);
    let pre = ctx.common.runtime_info.message_a.as_ref().to_vec();
    // present algorithm structures
    let pres = if v11 { choose(16, "structures") as usize } else { 0 };
    let k = (pres & 1) + (pres >> 1 & 1) + (pres >> 2 & 1) + (pres >> 3);
    let n = 32 + 4 * k;
    let mut m = [0u8; 50];
    set(&mut m, 0, v.get_u8() as u32, 1);
    m[1] = 0xE3;
    m[2] = if v11 { k as u8 } else { sym_u8("param1") };
    m[3] = sym_u8("param2");
    set(&mut m, 4, n as u32, 2);
    m[6] = rs as u8;
    m[7] = ro as u8;
    set(&mut m, 8, ra, 4);
    set(&mut m, 12, rh, 4);
    let rsv: [u8; 12] = sym("reserved");
    m[16..28].copy_from_slice(&rsv);
    let mut at = 32;
    for (i, (t, x)) in [(2u8, rd), (3, re), (4, rq), (5, rk)].iter().enumerate() {
        if pres >> i & 1 == 1 {
            m[at] = *t;
            m[at + 1] = 0x20;
            set(&mut m, at + 2, *x, 2);
            at += 4;
        }
    }
    let _ = ctx.dispatch_message(&m[..n]);
    check(sent() == 3, "NEGOTIATE_ALGORITHMS gets exactly one answer");
    let r = msg(2);
    let sel = |i: usize, x: u32| if pres >> i & 1 == 1 { x } else { 0 };
    let (h, a) = (best(ch, rh, HASHES), best(ca, ra, ASYM));
    let (d, e, q, s) = (sel(0, best(cd, rd & 0xffff, DHES)), sel(1, best(ce, re & 0xffff, AEADS)), sel(2, best(cq, rq & 0xffff, ASYM)), sel(3, ck & rk & 1));
    let o = if v12 { co & ro } else { 0 };
    let spec = cs & rs & 1;
    let len = if v11 { 52u8 } else { 36 };
    let mut x = Vec::new();
    x.extend_from_slice(&[v.get_u8(), 0x63, if v11 { 4 } else { 0 }, 0, len, 0, spec as u8, o as u8]);
    x.extend_from_slice(&cm.to_le_bytes());
    x.extend_from_slice(&a.to_le_bytes());
    x.extend_from_slice(&h.to_le_bytes());
    x.extend_from_slice(&[0; 16]);
    if v11 {
        x.extend_from_slice(&[2, 0x20, d as u8, (d >> 8) as u8, 3, 0x20, e as u8, (e >> 8) as u8, 4, 0x20, q as u8, (q >> 8) as u8, 5, 0x20, s as u8, 0]);
    }
    check(r.len() == x.len(), "length of ALGORITHMS");
    check(eq(r, &x), "ALGORITHMS selects the strongest algorithm both sides support, and nothing else");
    let c = &ctx.common;
    let g = &c.negotiate_info;
    check(
        g.base_hash_sel.bits() == h && g.base_asym_sel.bits() == a && g.dhe_sel.bits() as u32 == d && g.aead_sel.bits() as u32 == e && g.req_asym_sel.bits() as u32 == q
            && g.key_schedule_sel.bits() as u32 == s && g.measurement_hash_sel.bits() == cm && g.measurement_specification_sel.bits() as u32 == spec && g.opaque_data_support.bits() as u32 == o,
        "the selection sent is the selection used",
    );
    check(st(c) == 3, "state after ALGORITHMS");
    check(eq(c.runtime_info.message_a.as_ref(), &cat(&[&pre, &m[..n], &x])), "exchange appended to transcript A");
    cover("ALGORITHMS");
    core::mem::forget(ctx);
}

/// Malformed NEGOTIATE_ALGORITHMS are refused. param 0: version
#[no_mangle]
pub extern "C" fn h_alg_form() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let v = ver(param(0) as u8);
    let v11 = v != SpdmVersion::SpdmVersion10;
    let mut cfg = SpdmConfigInfo::default();
    cfg.base_hash_algo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
    let mut ctx = ResponderContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    set_state(&mut ctx.common, 2);
    ctx.common.negotiate_info.spdm_version_sel = v;
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let mut m: [u8; 50] = sym("request");
    m[1] = 0xE3;
    m[7] = 2;
    set(&mut m, 8, 0x10, 4);
    set(&mut m, 12, 1, 4);
    let cnt = if v11 { m[2] as usize } else { 0 };
    let n = 2 + choose(49, "length") as usize;
    let _ = ctx.dispatch_message(&m[..n]);
    check(sent() == 1, "exactly one answer");
    let r = msg(0);
    let mut good = cnt <= 4 && n >= 32 && le16(&m, 4) == 32 + 4 * cnt && m[28] == 0 && m[29] == 0 && n >= 32 + 4 * cnt;
    if good {
        let mut last = 0u8;
        for i in 0..cnt {
            let t = m[32 + 4 * i];
            good = good & (t >= 2) & (t <= 5) & (t > last) & (m[33 + 4 * i] == 0x20);
            last = t;
        }
    }
    if m[0] != v.get_u8() {
        check(eq(r, &[v.get_u8(), 0x7f, 0x41, 0]), "other version than negotiated: ERROR(VersionMismatch)");
        check(st(&ctx.common) == 2 && eq(ctx.common.runtime_info.message_a.as_ref(), &[0xAA; 7]), "mismatch changes nothing");
        cover("version");
    } else if good {
        check(r[1] == 0x63, "well-formed request is answered with ALGORITHMS");
        cover("ALGORITHMS");
    } else {
        check(eq(r, &[v.get_u8(), 0x7f, 1, 0]), "malformed request: ERROR(InvalidRequest)");
        check(st(&ctx.common) == 2 && eq(ctx.common.runtime_info.message_a.as_ref(), &[0xAA; 7]), "refusal changes nothing");
        cover("refused");
    }
    core::mem::forget(ctx);
}

/// The chain served is built for the hash negotiated now, whatever was negotiated before.
#[no_mangle]
pub extern "C" fn h_cert_chain_hash() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    cfg.base_hash_algo = SpdmBaseHashAlgo::all();
    cfg.spdm_version = [ver(0), ver(1), ver(2)];
    let mut pv = SpdmProvisionInfo::default();
    let data: [u8; 20] = sym("certificates");
    let mut d = SpdmCertChainData::default();
    d.data_size = 20;
    d.data[..20].copy_from_slice(&data);
    let slot = choose(8, "slot") as usize;
    pv.my_cert_chain_data[slot] = Some(d);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, cfg, pv);
    let v = 0x11u8;
    for round in 0..2 {
        let h = 1u8 << choose(3, "hash");
        let _ = ctx.dispatch_message(&[0x10, 0x84, 0, 0]);
        let _ = ctx.dispatch_message(&[v, 0xE1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let mut m = [0u8; 32];
        m[0] = v;
        m[1] = 0xE3;
        m[4] = 32;
        m[12] = h;
        let _ = ctx.dispatch_message(&m);
        check(sent() == 3 * round + 3 && msg(3 * round + 2)[1] == 0x63, "negotiation completes");
        let c = ctx.common.provision_info.my_cert_chain[slot].as_ref().unwrap();
        let hn = 16 * (1 + h as usize) - if h == 4 { 16 } else { 0 };
        let b = c.as_ref();
        check(b.len() == 4 + hn + 20 && le16(b, 0) == b.len() && b[2] == 0 && b[3] == 0, "chain header: length of the chain");
        check(b.len() >= 4 + hn && preimage(&b[4..4 + hn]).map_or(false, |p| eq(p, &data[..w().root_len])), "chain header: hash of the root certificate under the negotiated algorithm");
        check(eq(&b[4 + hn..], &data), "chain: the provisioned certificates");
        cover("built");
    }
    core::mem::forget(ctx);
}
