//! Whatever the responder answers: the requester reports errors for what they are, and goes on.
use crate::env::*;
use crate::gate::*;
use crate::rneg::answer;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::key_schedule::*;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_rq_error", h_rq_error), ("h_rq_simple", h_rq_simple), ("h_rq_vendor", h_rq_vendor), ("h_rq_any", h_rq_any), ("h_rq_any_two", h_rq_any_two), ("h_rq_raw", h_rq_raw)];
const ID: u32 = 0xFFFD_FFFD;
const ID2: u32 = 0xFFFC_FFFC;
/// Answer code of a request.
fn code(op: u64) -> u8 {
    (op as u8) & 0x7f
}
fn run(ctx: &mut RequesterContext, op: u64, sess: bool) -> SpdmResult {
    let s = if sess { Some(ID) } else { None };
    let slot = [0u8, 3, 7, 8][choose(4, "slot") as usize * (matches!(op, 0x82 | 0x83 | 0xE0 | 0xE4) as usize)];
    match op {
        0x84 => ctx.send_receive_spdm_version(),
        0xE1 => ctx.send_receive_spdm_capability(),
        0xE3 => ctx.send_receive_spdm_algorithm(),
        0x81 => ctx.send_receive_spdm_digest(s),
        0x82 => ctx.send_receive_spdm_certificate(s, slot),
        0x83 => ctx.send_receive_spdm_challenge(slot, SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll),
        0xE0 => {
            let a = SpdmMeasurementAttributes::from_bits_truncate(choose(2, "signed") as u8);
            let mut total = 0;
            let mut rec = SpdmMeasurementRecordStructure::default();
            let o = [SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber, SpdmMeasurementOperation::SpdmMeasurementRequestAll, SpdmMeasurementOperation::Unknown(5)];
            ctx.send_receive_spdm_measurement(s, slot, a, o[choose(3, "operation") as usize].clone(), &mut total, &mut rec)
        }
        0xE4 => ctx.send_receive_spdm_key_exchange(slot, SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb).map(|_| ()),
        0xE5 => {
            let o = [None, Some(0), Some(3), Some(9)][choose(4, "own slot") as usize];
            ctx.send_receive_spdm_finish(o, ID2)
        }
        0xE6 => ctx.send_receive_spdm_psk_exchange(SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone, None).map(|_| ()),
        0xE7 => ctx.send_receive_spdm_psk_finish(ID2),
        0xE8 => ctx.send_receive_spdm_heartbeat(ID),
        0xE9 => ctx.send_receive_spdm_key_update(ID, if choose(2, "keys") == 0 { SpdmKeyUpdateOperation::SpdmUpdateSingleKey } else { SpdmKeyUpdateOperation::SpdmUpdateAllKeys }),
        0xEC => ctx.send_receive_spdm_end_session(ID),
        0x100 => ctx.init_connection(),
        0x101 => ctx.start_session(false, 0, SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb).map(|_| ()),
        0x102 => ctx.start_session(true, 0, SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb).map(|_| ()),
        0x103 => ctx.session_based_mutual_authenticate(ID2),
        _ => ctx
            .send_spdm_vendor_defined_request(
                s,
                RegistryOrStandardsBodyID::PCISIG,
                VendorIDStruct { len: 2, vendor_id: [7; 255] },
                VendorDefinedReqPayloadStruct { req_length: 3, vendor_defined_req_payload: [9; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE] },
            )
            .map(|_| ()),
    }
}
/// Requests that travel in a session.
fn inside(op: u64, sess: bool) -> u32 {
    match op {
        0x81 | 0x82 | 0xE0 | 0xFE if sess => ID,
        0xE8 | 0xE9 | 0xEC => ID,
        0xE5 | 0xE7 => ID2,
        _ => 0,
    }
}
fn prov() -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    p.my_cert_chain[0] = Some(chain(0x20, 16));
    p
}
fn begin(c: &mut SpdmContext, op: u64, v: SpdmVersion) {
    let _ = session_ctx(c, v);
    caps_rsp(c, 0x46c2 | 0x10 | 0x4000);
    caps_req(c, 0x42c2 | 0x4000 | 0x400);
    let _ = c.append_message_a(&[0xAA; 7]);
    c.peer_info.peer_cert_chain[0] = Some(chain(0x30, 9));
    c.peer_info.peer_cert_chain[3] = Some(chain(0x60, 9));
    c.session[1].set_session_state(HS);
    if matches!(op, 0xE4 | 0xE6) {
        let _ = c.session[1].teardown(ID2);
    }
    if op == 0xE7 {
        c.session[1].set_use_psk(true);
    }
}

/// ERROR, or an answer to something else. params: request, in a session
#[no_mangle]
pub extern "C" fn h_rq_error() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    let (op, sess) = (param(0), param(1) == 1);
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    cfg.spdm_version = [ver(0), ver(1), ver(2)];
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, prov());
    let v = if op == 0xE4 || op == 0xE5 { ver(2) } else if op == 0xE6 || op == 0xE7 { ver(1 + choose(2, "version") as u8) } else { any_ver() };
    begin(&mut ctx.common, op, v);
    // the version the answer has to have
    let av = if op == 0x84 { 0x10 } else { v.get_u8() };
    let b: [u8; 12] = sym("answer");
    let n = choose(13, "length") as usize;
    let m = &b[..n];
    if n > 1 {
        assume(m[1] != code(op));
    }
    let id = inside(op, sess);
    w().rx_secured = id != 0;
    if id != 0 {
        answer(&[&record(id, 0, m)]);
    } else {
        answer(&[m]);
    }
    let before = snap(&mut ctx.common);
    let r = run(&mut ctx, op, sess);
    let after = snap(&mut ctx.common);
    let k = if id != 0 { count(Op::Enc) } else { sent() };
    check(r.is_err(), "only the answer to the request makes it succeed");
    let e = r.unwrap_err();
    check(k <= 1, "nothing else is sent");
    if op != 0x84 {
        check(before.neg == after.neg && before.st == after.st && eq(&before.a, &after.a), "what was negotiated stays");
        for i in 0..2 {
            if before.sess[i].id != id || id == 0 {
                check(same_sess(&before.sess[i], &after.sess[i], true), "other sessions are not affected");
            }
        }
        check((0..8).all(|i| ctx.common.peer_info.peer_cert_chain[i].is_some() == (i == 0 || i == 3)), "certificates known stay");
    }
    if k == 0 {
        cover("not sent");
        core::mem::forget(ctx);
        return;
    }
    let form = n >= 4 && m[0] == av && m[1] == 0x7f;
    let c = if form { m[2] } else { 0 };
    // (before a version is negotiated, the version of an ERROR is not settled)
    let said = |st: SpdmStatus, k: u8| {
        if op == 0x84 {
            e != st || n >= 4 && m[1] == 0x7f && m[2] == k
        } else {
            (e == st) == (form && c == k)
        }
    };
    check(said(SPDM_STATUS_BUSY_PEER, 3), "busy is what the responder says it is");
    check(said(SPDM_STATUS_NOT_READY_PEER, 0x42), "not ready is what the responder says it is");
    check(e != SPDM_STATUS_SESSION_MSG_ERROR && id == 0 || said(SPDM_STATUS_SESSION_MSG_ERROR, 6) || id == 0 && form && c == 6, "a session is broken when the responder says so");
    if op != 0x84 && id != 0 {
        let i = if id == ID { 0 } else { 1 };
        let s = &after.sess[i];
        if form && c == 6 {
            check(s.id == 0 && s.state == 0, "a broken session is given up");
            cover("broken");
        } else if form && c == 0x43 {
            check(s.state == 0, "a session does not survive a new connection");
            cover("resynchronise");
        } else if op == 0xE5 || op == 0xE7 {
            check(s.state != EST.get_u8(), "the session is not established");
        } else if op != 0xE9 {
            check(same_sess(&before.sess[i], s, false), "the session goes on");
            cover("goes on");
        } else {
            check(s.id == ID && s.state == EST.get_u8(), "the session goes on");
            cover("goes on");
        }
    }
    cover(if form { "error" } else { "other" });
    core::mem::forget(ctx);
}

/// HEARTBEAT, END_SESSION: any answer. params: request, environment fails
#[no_mangle]
pub extern "C" fn h_rq_simple() {
    install();
    w().free_verdict = true;
    let op = param(0);
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), prov());
    let v = any_ver();
    begin(&mut ctx.common, op, v);
    let b: [u8; 6] = sym("answer");
    let n = choose(7, "length") as usize;
    let m = &b[..n];
    let seq = choose(2, "sequence number") as u64;
    w().rx_secured = true;
    answer(&[&record(ID, seq, m), &record(ID, 1, &[v.get_u8(), 0x68, 0, 0])]);
    if param(1) == 1 {
        w().fail_at = w().calls + choose(6, "failing call") as usize;
        w().failed = false;
    }
    let before = snap(&mut ctx.common);
    let r = run(&mut ctx, op, true).is_ok();
    let failed = param(1) == 1 && w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    check(before.neg == after.neg && before.st == after.st && eq(&before.a, &after.a), "what was negotiated stays");
    check(same_sess(&before.sess[1], &after.sess[1], true), "the other session is not affected");
    let good = n >= 4 && m[0] == v.get_u8() && m[1] == code(op) && seq == 0 && !failed && count(Op::Dec) == 1 && nth(Op::Dec, 0).ok;
    if sent() > 0 {
        check(eq(&nth(Op::Enc, 0).d[2..], &[v.get_u8(), op as u8, 0, 0]), "the request as specified");
    }
    check(r == good || failed && !r, "it succeeds exactly with its answer in the session");
    let s = &after.sess[0];
    if r && op == 0xEC {
        check(s.id == 0 && s.state == 0, "the session is forgotten");
        let e = ctx.send_receive_spdm_heartbeat(ID);
        check(e.is_err() && sent() == 1, "nothing more is sent in it");
        cover("ended");
    } else if n >= 4 && m[1] == 0x7f && m[0] == v.get_u8() && (m[2] == 6 || m[2] == 0x43) {
        check(r == false, "an error is an error");
    } else {
        check(same_sess(&before.sess[0], s, false), "the session goes on");
        cover(if r { "answered" } else { "refused" });
    }
    core::mem::forget(ctx);
}
/// VENDOR_DEFINED: any payload, any answer. params: in a session, request's payload, answer's length
#[no_mangle]
pub extern "C" fn h_rq_vendor() {
    install();
    w().free_verdict = false;
    let sess = param(0) == 1;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), prov());
    let v = any_ver();
    begin(&mut ctx.common, 0xFE, v);
    let t = sym_u32("responder's buffer");
    assume(t == 0 || t >= 42);
    ctx.common.negotiate_info.rsp_data_transfer_size_sel = t;
    let vid: [u8; 4] = sym("vendor id");
    let vl = choose(5, "vendor id length") as usize;
    let mut vs = VendorIDStruct { len: vl as u8, vendor_id: [0; 255] };
    vs.vendor_id[..4].copy_from_slice(&vid);
    let l = param(1) as usize;
    let p: [u8; 400] = sym("payload");
    let mut ps = VendorDefinedReqPayloadStruct { req_length: l as u16, vendor_defined_req_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE] };
    if l <= MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
        ps.vendor_defined_req_payload[..l].copy_from_slice(&p[..l]);
    }
    let (sid, sb) = [(RegistryOrStandardsBodyID::DMTF, 0u8), (RegistryOrStandardsBodyID::JEDEC, 8), (RegistryOrStandardsBodyID::IANA, 4)][choose(3, "standard") as usize];
    let b: [u8; 60] = sym("answer");
    let m = &b[..param(2) as usize];
    let n = m.len();
    w().rx_secured = sess;
    if sess {
        answer(&[&record(ID, 0, m)]);
    } else {
        answer(&[m]);
    }
    let before = snap(&mut ctx.common);
    let r = ctx.send_spdm_vendor_defined_request(if sess { Some(ID) } else { None }, sid, vs, ps);
    let after = snap(&mut ctx.common);
    check(before.neg == after.neg && before.st == after.st && eq(&before.a, &after.a), "what was negotiated stays");
    check(same_sess(&before.sess[1], &after.sess[1], true), "the other session is not affected");
    let ql = 4 + 2 + 1 + vl + 2 + l;
    let k = if sess { count(Op::Enc) } else { sent() };
    if k == 0 {
        check(r.is_err(), "what is not sent is not answered");
        check(ql > 392 || t != 0 && ql > t as usize, "what fits is sent");
        cover("not sent");
        core::mem::forget(ctx);
        return;
    }
    check(t == 0 || ql <= t as usize, "what does not fit the responder's buffer is not sent");
    let q: &[u8] = if sess { &nth(Op::Enc, 0).d[2..] } else { msg(0) };
    check(eq(q, &cat(&[&[v.get_u8(), 0xFE, 0, 0, sb, 0, vl as u8], &vid[..vl], &[l as u8, (l >> 8) as u8], &p[..l]])), "the request carries exactly what it was given");
    let mut form = n >= 9 && m[0] == v.get_u8() && m[1] == 0x7E;
    let mut at = 0;
    let mut rl = 0;
    if form {
        form = n >= 9 + m[6] as usize;
        if form {
            at = 7 + conc(m[6] as usize);
            form = le16(m, at) <= n - at - 2;
            if form {
                rl = conc(le16(m, at));
            }
        }
    }
    match r {
        Ok(x) => {
            check(form, "the answer has all its fields");
            check(x.rsp_length as usize == rl && eq(&x.vendor_defined_rsp_payload[..rl], &m[at + 2..at + 2 + rl]), "the answer's payload is handed out unaltered");
            cover("answered");
        }
        Err(_) => {
            check(!form || m[4] as usize + 256 * m[5] as usize > 8, "a good answer is handed out");
            cover("refused");
        }
    }
    if sess {
        let s = &after.sess[0];
        check(n >= 4 && m[1] == 0x7f && (m[2] == 6 || m[2] == 0x43) || same_sess(&before.sess[0], s, false), "the session goes on");
    }
    core::mem::forget(ctx);
}

/// Any selections of what matters, each possibly none.
fn gap(c: &mut SpdmContext, all: bool) {
    let n = &mut c.negotiate_info;
    if all {
        n.base_hash_sel = SpdmBaseHashAlgo::from_bits_truncate(1 & sym_u32("hash"));
        n.base_asym_sel = SpdmBaseAsymAlgo::from_bits_truncate(0x10 & sym_u32("asym"));
    }
    n.dhe_sel = SpdmDheAlgo::from_bits_truncate(8 & sym_u16("dhe"));
    n.aead_sel = SpdmAeadAlgo::from_bits_truncate(1 & sym_u16("aead"));
    n.req_asym_sel = SpdmReqAsymAlgo::from_bits_truncate(0x11 & sym_u16("req asym"));
    n.key_schedule_sel = SpdmKeyScheduleAlgo::from_bits_truncate(1 & sym_u16("schedule"));
    n.measurement_hash_sel = SpdmMeasurementHashAlgo::from_bits_truncate(3 & sym_u32("measurement hash"));
    n.measurement_specification_sel = SpdmMeasurementSpecification::from_bits_truncate(1 & sym_u8("measurement specification"));
    n.opaque_data_support = SpdmOpaqueSupport::from_bits_truncate(sym_u8("opaque"));
}
fn world(c: &mut SpdmContext, op: u64) {
    w().rand_concrete = true;
    let v = any_ver();
    begin(c, op, v);
    let n = &mut c.negotiate_info;
    n.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits_truncate(sym_u32("responder capabilities"));
    n.req_capabilities_sel = SpdmRequestCapabilityFlags::from_bits_truncate(sym_u32("requester capabilities"));
    n.rsp_ct_exponent_sel = sym_u8("responder's time");
    let t = sym_u32("responder's buffer");
    assume(t == 0 || t >= 42);
    n.rsp_data_transfer_size_sel = t;
    if choose(2, "mutual authentication") == 1 {
        c.session[1].set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ);
    }
}
/// Any answer to any request. params: request, in a session, length
#[no_mangle]
pub extern "C" fn h_rq_any() {
    install();
    w().free_verdict = false;
    let (op, sess) = (param(0), param(1) == 1);
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    cfg.spdm_version = [ver(0), ver(1), ver(2)];
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, prov());
    world(&mut ctx.common, op);
    let id = inside(op, sess);
    if choose(2, "something not negotiated") == 1 {
        if id == 0 {
            ctx.common.session[0].set_default();
            ctx.common.session[1].set_default();
        }
        gap(&mut ctx.common, id == 0);
    }
    let n = param(2) as usize;
    let b: [u8; 220] = sym("answer");
    let m = &b[..n];
    if n > 1 {
        assume(m[1] == code(op));
    }
    if op == 0xE6 && n > 50 {
        assume(le16(m, 8) == 16);
    }
    let clear = matches!(op, 0xE5) && ctx.common.negotiate_info.in_clear();
    w().rx_secured = id != 0 && !clear;
    let r = if id != 0 && !clear { record(id, 0, m) } else { m.to_vec() };
    answer(&[&r]);
    w().free_verdict = true;
    let e = ctx.common.negotiate_info.rsp_ct_exponent_sel as u32;
    let _ = run(&mut ctx, op, sess);
    if w().rx_n > 0 {
        let t = w().last_timeout;
        match op {
            0x83 | 0xE0 => check(if e >= 63 { t == usize::MAX } else { t == 2usize << (e & 63) }, "it waits as long as the responder said it may take"),
            0x81 | 0x82 | 0x84 | 0xE1 | 0xE3 | 0xE8 | 0xEC | 0xFE => check(t == ST1, "it waits for the usual time"),
            _ => (),
        }
    }
    check(!w().misuse, "no hash state is used after it was finished");
    cover("done");
    core::mem::forget(ctx);
}
trait InClear {
    fn in_clear(&self) -> bool;
}
impl InClear for SpdmNegotiateInfo {
    fn in_clear(&self) -> bool {
        self.req_capabilities_sel.contains(SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP) && self.rsp_capabilities_sel.contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
    }
}

/// Two requests, each with any answer. params: requests
#[no_mangle]
pub extern "C" fn h_rq_any_two() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    cfg.spdm_version = [ver(0), ver(1), ver(2)];
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, prov());
    world(&mut ctx.common, if param(0) == 0xE4 || param(0) == 0xE6 { 0xE4 } else { 0 });
    let mut ms = Vec::new();
    for i in 0..2 {
        let op = param(i);
        let n = match op {
            0x84 => 8,
            0x81 => 36,
            0x82 => 24,
            0x83 => 134,
            0xE1 => 20,
            0xE3 => 52,
            0xE0 => 14,
            0xE4 => 160,
            _ => 40,
        };
        let mut b: [u8; 160] = sym("answer");
        b[1] = code(op);
        ms.push(b[..n].to_vec());
    }
    answer(&[&ms[0], &ms[1]]);
    for i in 0..2 {
        let _ = run(&mut ctx, param(i), false);
    }
    check(!w().misuse, "no hash state is used after it was finished");
    cover("done");
    core::mem::forget(ctx);
}

/// Anything at all the transport delivers as a record. param: length
#[no_mangle]
pub extern "C" fn h_rq_raw() {
    install();
    w().free_verdict = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), prov());
    world(&mut ctx.common, 0);
    w().seq_count = sym_u8("sequence number bytes") % 9;
    w().seq_count = conc(w().seq_count as usize) as u8;
    let n = param(0) as usize;
    let b: [u8; 64] = sym("record");
    w().rx_secured = choose(2, "marked as secured") == 1;
    w().rx_app = choose(2, "application data") == 1;
    answer(&[&b[..n]]);
    let mut buf = [0u8; 400];
    let (long, clear) = (choose(2, "takes long") == 1, choose(2, "in clear") == 1);
    let e = ctx.common.negotiate_info.rsp_ct_exponent_sel as u32;
    let r = if clear { ctx.receive_message(&mut buf, long) } else { ctx.receive_secured_message(ID, &mut buf, long) };
    let t = w().last_timeout;
    if long {
        check(if e >= 63 { t == usize::MAX } else { t == 2usize << (e & 63) }, "it waits as long as the responder said it may take");
    } else {
        check(t == ST1, "it waits for the usual time");
    }
    check(r.map_or(true, |u| u <= buf.len()), "what is handed out is there");
    check(!w().misuse, "no hash state is used after it was finished");
    cover("done");
    core::mem::forget(ctx);
}
