//! Whatever comes in, the responder answers at most once and goes on.
use crate::env::*;
use crate::gate::*;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_any", h_any), ("h_any_rec", h_any_rec), ("h_any_two", h_any_two), ("h_any_raw", h_any_raw)];
static mut RX: Vec<u8> = Vec::new();
fn rx1(_i: usize) -> Option<Vec<u8>> {
    unsafe { Some(RX.clone()) }
}
fn prov(op: u64) -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    let n = if matches!(op, 0x81 | 0x82 | 0x83 | 0xE0 | 0xE4) { choose(3, "provisioned") } else { 2 };
    if n > 0 {
        p.my_cert_chain[0] = Some(chain(0x20, 16));
    }
    if n > 1 {
        p.my_cert_chain[7] = Some(chain(0x60, 20));
    }
    p
}
/// Any selections of what matters, each possibly none.
fn gap(c: &mut SpdmContext) {
    let n = &mut c.negotiate_info;
    n.base_hash_sel = SpdmBaseHashAlgo::from_bits_truncate(1 & sym_u32("hash"));
    n.base_asym_sel = SpdmBaseAsymAlgo::from_bits_truncate(0x10 & sym_u32("asym"));
    n.dhe_sel = SpdmDheAlgo::from_bits_truncate(8 & sym_u16("dhe"));
    n.aead_sel = SpdmAeadAlgo::from_bits_truncate(1 & sym_u16("aead"));
    n.req_asym_sel = SpdmReqAsymAlgo::from_bits_truncate(0x10 & sym_u16("req asym"));
    n.key_schedule_sel = SpdmKeyScheduleAlgo::from_bits_truncate(1 & sym_u16("schedule"));
    n.measurement_hash_sel = SpdmMeasurementHashAlgo::from_bits_truncate(2 & sym_u32("measurement hash"));
    n.measurement_specification_sel = SpdmMeasurementSpecification::from_bits_truncate(1 & sym_u8("measurement specification"));
    n.opaque_data_support = SpdmOpaqueSupport::from_bits_truncate(sym_u8("opaque"));
}
fn world(c: &mut SpdmContext) {
    w().rand_concrete = true;
    let v = any_ver();
    let _ = session_ctx(c, v);
    let _ = c.append_message_a(&[0xAA; 7]);
    c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits_truncate(sym_u32("responder capabilities"));
    c.negotiate_info.req_capabilities_sel = SpdmRequestCapabilityFlags::from_bits_truncate(sym_u32("requester capabilities"));
    let t = sym_u32("transfer size");
    assume(t == 0 || t >= 42);
    c.negotiate_info.req_data_transfer_size_sel = t;
}
/// Any request outside a session. param 0: opcode (0x100: any other), param 1: length
#[no_mangle]
pub extern "C" fn h_any() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() }, prov(param(0)));
    world(&mut ctx.common);
    let case = choose(5, "state");
    set_state(&mut ctx.common, [0, 3, 5, 6, 5][case as usize]);
    if case < 4 {
        // no session, any selections
        ctx.common.session[0].set_default();
        ctx.common.session[1].set_default();
        gap(&mut ctx.common);
    } else {
        ctx.common.runtime_info.set_last_session_id(Some(0xFFFD_FFFD));
        ctx.common.session[0].set_session_state(HS);
    }
    let n = param(1) as usize;
    let mut b: [u8; 160] = sym("request");
    if param(0) < 0x100 {
        b[1] = param(0) as u8;
    } else {
        assume(!matches!(b[1], 0x81 | 0x82 | 0x83 | 0x84 | 0xE0 | 0xE1 | 0xE3 | 0xE4 | 0xE5 | 0xE6 | 0xE7 | 0xE8 | 0xE9 | 0xEA | 0xEB | 0xEC | 0xFE | 0xFF));
    }
    if param(0) == 0x82 && n > 7 {
        // the portions themselves are the business of another harness
        assume(b[6] < 3 && b[7] == 0);
        b[6] = conc(b[6] as usize) as u8;
    }
    let _ = ctx.dispatch_message(&b[..n]);
    check(sent() <= 1, "at most one answer");
    if sent() == 1 {
        let r = msg(0);
        check(r.len() >= 4, "an answer is a message");
        let t = ctx.common.negotiate_info.req_data_transfer_size_sel;
        check(t == 0 || r.len() <= t as usize, "an answer fits the requester's buffer");
    }
    check(!w().misuse, "no hash state is used after it was finished");
    cover("done");
    core::mem::forget(ctx);
}
/// Any request in a session. param 0: opcode (0x100: any other), param 1: length
#[no_mangle]
pub extern "C" fn h_any_rec() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() }, prov(param(0)));
    world(&mut ctx.common);
    let est = choose(2, "established") == 1;
    ctx.common.session[0].set_session_state(if est { EST } else { HS });
    if !est && choose(2, "mutual authentication") == 1 {
        ctx.common.session[0].set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ);
    }
    if choose(2, "pre-shared key") == 1 {
        // such a session takes neither certificates nor a key exchange
        ctx.common.session[0].set_use_psk(true);
        let n = &mut ctx.common.negotiate_info;
        n.base_asym_sel = SpdmBaseAsymAlgo::from_bits_truncate(0x10 & sym_u32("asym"));
        n.req_asym_sel = SpdmReqAsymAlgo::from_bits_truncate(0x10 & sym_u16("req asym"));
        n.dhe_sel = SpdmDheAlgo::from_bits_truncate(8 & sym_u16("dhe"));
    }
    ctx.common.negotiate_info.measurement_hash_sel = SpdmMeasurementHashAlgo::from_bits_truncate(2 & sym_u32("measurement hash"));
    set_state(&mut ctx.common, if est { 6 } else { 3 });
    let n = param(1) as usize;
    let mut b: [u8; 160] = sym("request");
    if param(0) < 0x100 {
        b[1] = param(0) as u8;
    } else {
        assume(!matches!(b[1], 0x81 | 0x82 | 0x83 | 0x84 | 0xE0 | 0xE1 | 0xE3 | 0xE4 | 0xE5 | 0xE6 | 0xE7 | 0xE8 | 0xE9 | 0xEA | 0xEB | 0xEC | 0xFE | 0xFF));
    }
    if param(0) == 0x82 && n > 7 {
        assume(b[6] < 3 && b[7] == 0);
        b[6] = conc(b[6] as usize) as u8;
    }
    w().rx_secured = true;
    unsafe { RX = record(0xFFFD_FFFD, 0, &b[..n]) };
    w().rx = Some(rx1);
    w().free_verdict = true;
    let _ = ctx.process_message(0, &[]);
    check(sent() <= 1, "at most one answer");
    let n = count(Op::Enc);
    if sent() == 1 && n > 0 {
        let r = &nth(Op::Enc, n - 1).d[2..];
        check(r.len() >= 4, "an answer is a message");
        let t = ctx.common.negotiate_info.req_data_transfer_size_sel;
        check(t == 0 || r.len() <= t as usize, "an answer fits the requester's buffer");
    }
    check(!w().misuse, "no hash state is used after it was finished");
    cover("done");
    core::mem::forget(ctx);
}
/// Two requests in a row, the second right after the first. params: opcodes
#[no_mangle]
pub extern "C" fn h_any_two() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], spdm_version: [ver(0), ver(1), ver(2)], ..Default::default() }, prov(0));
    world(&mut ctx.common);
    set_state(&mut ctx.common, 5);
    for i in 0..2 {
        let op = param(i) as u8;
        let n = match op {
            0x84 => 4,
            0x81 => 4,
            0x82 => 8,
            0x83 => 36,
            0xE1 => 20,
            0xE3 => 32,
            0xE0 => 37,
            0xE4 => 106,
            0xE5 => 36,
            0xE6 => 14,
            _ => 12,
        };
        let mut b: [u8; 106] = sym("request");
        b[1] = op;
        if op == 0x82 {
            assume(b[6] < 3 && b[7] == 0);
        }
        if op == 0xE4 {
            b[105] = 0;
            b[104] = 0;
        }
        let _ = ctx.dispatch_message(&b[..n]);
        check(sent() <= i as usize + 1, "at most one answer for each request");
    }
    check(!w().misuse, "no hash state is used after it was finished");
    cover("done");
    core::mem::forget(ctx);
}

/// Anything at all the transport delivers as a secured record. param: length
#[no_mangle]
pub extern "C" fn h_any_raw() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() }, prov(0));
    world(&mut ctx.common);
    ctx.common.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::all();
    ctx.common.negotiate_info.req_capabilities_sel = SpdmRequestCapabilityFlags::all();
    let case = choose(3, "session");
    ctx.common.session[0].set_session_state([HS, EST, EST][case as usize]);
    if case == 2 {
        ctx.common.session[0].set_default();
    }
    w().seq_count = sym_u8("sequence number bytes") % 9;
    w().seq_count = conc(w().seq_count as usize) as u8;
    set_state(&mut ctx.common, 6);
    let n = param(0) as usize;
    let b: [u8; 64] = sym("record");
    w().rx_secured = true;
    w().rx_app = choose(2, "application data") == 1;
    w().app_reply = Vec::new();
    unsafe { RX = b[..n].to_vec() };
    w().rx = Some(rx1);
    w().free_verdict = true;
    let _ = ctx.process_message(0, &[]);
    check(sent() <= 1, "at most one answer");
    check(!w().misuse, "no hash state is used after it was finished");
    cover("done");
    core::mem::forget(ctx);
}
