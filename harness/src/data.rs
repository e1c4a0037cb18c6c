//! Data of the application: vendor-defined messages, application messages, heartbeat, end of session.
use crate::env::*;
use crate::gate::*;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_vendor", h_vendor),
    ("h_vendor_len", h_vendor_len),
    ("h_app", h_app),
    ("h_end", h_end),
    ("h_ended", h_ended),
];
const A: [u8; 7] = [0xAA; 7];
static mut RX: Vec<u8> = Vec::new();
static mut RX2: Vec<u8> = Vec::new();
fn rx1(i: usize) -> Option<Vec<u8>> {
    unsafe { Some(if i == 0 { RX.clone() } else { RX2.clone() }) }
}
fn last_plain() -> Vec<u8> {
    nth(Op::Enc, count(Op::Enc) - 1).d[2..].to_vec()
}
fn reply(n: usize) {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(0x31 ^ i as u8);
    }
    w().app_reply = v;
}
fn keeps(b: &Snap, a: &Snap) {
    check(b.st == a.st && b.neg == a.neg && eq(&b.a, &a.a), "the connection is not affected");
    check(same_sess(&b.sess[1], &a.sess[1], true), "the other session is not affected");
}

/// VENDOR_DEFINED_REQUEST. param 0: 0 outside, 1 in a handshake, 2 in an established session
#[no_mangle]
pub extern "C" fn h_vendor() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    let (mut io, mut trn) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(param(1) as u8);
    let place = param(0);
    let _ = session_ctx(&mut ctx.common, v);
    let _ = ctx.common.append_message_a(&A);
    if place == 1 {
        ctx.common.session[0].set_session_state(HS);
    }
    set_state(&mut ctx.common, choose(7, "state"));
    let rn = [0usize, 1, 150, 391][choose(4, "reply length") as usize];
    reply(rn);
    let fail = choose(2, "handler fails") == 1;
    let vl = [0usize, 2, 4, 9][choose(4, "vendor id length") as usize];
    let pl = [0usize, 1, 7][choose(3, "payload length") as usize];
    let b: [u8; 7] = sym("header");
    let vid: [u8; 9] = sym("vendor id");
    let pay: [u8; 7] = sym("payload");
    let mut m = cat(&[&b[..6], &[vl as u8], &vid[..vl], &[pl as u8, 0], &pay[..pl]]);
    m[1] = 0xFE;
    let full = m.len();
    let cut = choose(3, "cut") as usize;
    let n = [full, full - 1, 5][cut];
    // bytes behind the payload are no part of it
    let extra = choose(2, "more bytes") == 1 && cut == 0;
    if extra {
        m.push(0x99);
    }
    let m = &m[..if extra { full + 1 } else { n }];
    let before = snap(&mut ctx.common);
    if fail {
        w().fail_op = Op::Vendor as u8;
    }
    let r = if place == 0 {
        let _ = ctx.dispatch_message(m);
        check(sent() == 1, "one answer");
        msg(0).to_vec()
    } else {
        w().rx_secured = true;
        unsafe { RX = record(0xFFFD_FFFD, 0, m) };
        w().rx = Some(rx1);
        let _ = ctx.process_message(0, &[]);
        check(sent() == 1, "one answer");
        check(le32(msg(0), 0) == 0xFFFD_FFFD, "the answer goes out in the session of the request");
        last_plain()
    };
    let after = snap(&mut ctx.common);
    keeps(&before, &after);
    check(count(Op::App) == 0, "vendor-defined requests are not application data");
    if m[0] != v.get_u8() || cut != 0 {
        check(count(Op::Vendor) == 0, "a refused request does not reach the handler");
        check(eq(&r, &[v.get_u8(), 0x7f, if m[0] != v.get_u8() { 0x41 } else { 1 }, 0]), "the answer is the ERROR that fits");
        cover("refused");
    } else if fail || 9 + vl + rn > 400 {
        check(r.len() == 4 && r[0] == v.get_u8() && r[1] == 0x7f, "a request the handler refuses or answers at too great length gets an ERROR");
        cover("handler refuses");
    } else {
        check(count(Op::Vendor) == 1, "the handler gets the request once");
        let e = nth(Op::Vendor, 0);
        check(e.n == pl as i64 && eq(&e.a, &pay[..pl]), "the handler gets exactly the payload");
        let want = cat(&[&[v.get_u8(), 0x7e, 0, 0], &b[4..6], &[vl as u8], &vid[..vl], &(rn as u16).to_le_bytes(), &w().app_reply]);
        check(eq(&r, &want), "the response has the request's standard and vendor and exactly the handler's answer");
        cover("answered");
    }
    core::mem::forget(ctx);
}
/// Announced lengths against what is there. param 0: bytes of the message
#[no_mangle]
pub extern "C" fn h_vendor_len() {
    install();
    let (mut io, mut trn) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(2);
    negotiate(&mut ctx.common, v);
    set_state(&mut ctx.common, 5);
    let n = param(0) as usize;
    let mut m: [u8; 448] = [0x41; 448];
    m[0] = 0x12;
    m[1] = 0xFE;
    m[6] = choose(3, "vendor id length");
    let at = 7 + m[6] as usize;
    let pl = sym_u16("payload length");
    m[at] = pl as u8;
    m[at + 1] = (pl >> 8) as u8;
    let before = snap(&mut ctx.common);
    let _ = ctx.dispatch_message(&m[..n]);
    let after = snap(&mut ctx.common);
    keeps(&before, &after);
    check(sent() == 1, "one answer");
    let pl = pl as usize;
    if at + 2 + pl <= n && pl <= 391 {
        check(count(Op::Vendor) == 1, "a complete request reaches the handler");
        let e = nth(Op::Vendor, 0);
        check(e.a.len() == pl && eq(&e.a, &m[at + 2..at + 2 + conc(pl)]), "the handler gets exactly the payload");
        cover("answered");
    } else {
        check(count(Op::Vendor) == 0 && eq(msg(0), &[0x12, 0x7f, 1, 0]), "a length beyond the message or the largest payload is refused");
        cover("refused");
    }
    core::mem::forget(ctx);
}

/// Application data. param 0: whether a call fails
#[no_mangle]
pub extern "C" fn h_app() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    w().rx_app = true;
    w().rx_secured = true;
    let (mut io, mut trn) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = any_ver();
    let _ = session_ctx(&mut ctx.common, v);
    let _ = ctx.common.append_message_a(&A);
    set_state(&mut ctx.common, 3 + choose(4, "state"));
    let which = choose(2, "session") as usize;
    let id = [0xFFFD_FFFDu32, 0xFFFC_FFFC][which];
    let st = [HS, EST][choose(2, "established") as usize];
    ctx.common.session[which].set_session_state(st);
    let rn = [0usize, 1, 2, 60][choose(4, "reply length") as usize];
    reply(rn);
    let d: [u8; 12] = sym("data");
    let n = choose(13, "length") as usize;
    // answers that look like protocol messages are data all the same
    if rn == 2 {
        w().app_reply = alloc::vec![0x12, [0x65, 0x6c, 0x67][choose(3, "looks like") as usize]];
    }
    let aux: [u8; 3] = sym("auxiliary data");
    // transfer sizes are for messages, not for data
    ctx.common.negotiate_info.req_data_transfer_size_sel = sym_u32("transfer size");
    let fail = param(0) == 1;
    unsafe { RX = record(id, 0, &d[..n]) };
    w().rx = Some(rx1);
    let before = snap(&mut ctx.common);
    let (kq, _) = dir_keys(&ctx.common.session[which], EST, true);
    let (kr, _) = dir_keys(&ctx.common.session[which], EST, false);
    if fail {
        w().fail_op = Op::App as u8;
    }
    let _ = ctx.process_message(0, &aux);
    let after = snap(&mut ctx.common);
    check(before.st == after.st && before.neg == after.neg && eq(&before.a, &after.a), "the connection is not affected");
    check(same_sess(&before.sess[1 - which], &after.sess[1 - which], true), "the other session is not affected");
    check(same_sess(&before.sess[which], &after.sess[which], false), "application data does not change the session");
    check(count(Op::Vendor) == 0, "application data are no messages");
    if st == HS {
        check(sent() == 0 && count(Op::App) == 0, "application data before the session is established is dropped");
        cover("early");
    } else {
        let e = nth(Op::Dec, count(Op::Dec) - 1);
        check(eq(&e.a, &kq), "the data is taken under the session's data key");
        if fail {
            check(count(Op::App) == 0 && sent() == 0, "data the application refuses is not answered");
            cover("refused");
        } else {
            check(count(Op::App) == 1, "the application gets the data once");
            let a = nth(Op::App, 0);
            check(a.n == id as i64 && eq(&a.a, &d[..n]) && eq(&a.b, &aux), "the application gets exactly the data, its session and the auxiliary data");
            check(sent() == 1, "the application's answer is sent");
            let e = nth(Op::Enc, count(Op::Enc) - 1);
            check(eq(&e.a, &kr) && le32(msg(0), 0) == id, "the answer goes out in the same session");
            check(eq(&e.d[2..], &w().app_reply), "exactly the application's answer is sent");
            cover("answered");
        }
    }
    core::mem::forget(ctx);
}

/// HEARTBEAT and END_SESSION. param 0: opcode, param 1: something fails
#[no_mangle]
pub extern "C" fn h_end() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    w().rx_secured = true;
    let (mut io, mut trn) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = any_ver();
    let _ = session_ctx(&mut ctx.common, v);
    let _ = ctx.common.append_message_a(&A);
    set_state(&mut ctx.common, 3 + choose(4, "state"));
    let which = choose(2, "session") as usize;
    let id = [0xFFFD_FFFDu32, 0xFFFC_FFFC][which];
    if choose(2, "other session in its handshake") == 1 {
        ctx.common.session[1 - which].set_session_state(HS);
    }
    let _ = ctx.common.append_message_m(Some(id), &[0xD1; 4]);
    let b: [u8; 8] = sym("request");
    let n = 2 + choose(6, "length") as usize;
    let mut m = b[..n].to_vec();
    let end = param(0) == 0xEC;
    m[1] = param(0) as u8;
    unsafe { RX = record(id, 0, &m) };
    w().rx = Some(rx1);
    let before = snap(&mut ctx.common);
    let (kr, _) = dir_keys(&ctx.common.session[which], EST, false);
    if param(1) == 1 {
        if choose(2, "what fails") == 1 {
            w().io_fail = 0;
        } else {
            w().fail_op = Op::Enc as u8;
        }
    }
    let _ = ctx.process_message(0, &[]);
    let after = snap(&mut ctx.common);
    check(before.st == after.st && before.neg == after.neg && eq(&before.a, &after.a), "the connection is not affected");
    check(same_sess(&before.sess[1 - which], &after.sess[1 - which], true), "the other session is not affected");
    let good = m[0] == v.get_u8() && n >= 4 && (!end || m[2] < 2);
    if param(1) == 1 {
        check(sent() == 0, "nothing is sent");
        check(same_sess(&before.sess[which], &after.sess[which], false) || after.sess[which].l1l2.is_none() && after.sess[which].id == id && after.sess[which].state == before.sess[which].state, "a session whose end was not acknowledged goes on");
        cover("failed");
    } else {
        check(sent() == 1, "one answer");
        check(le32(msg(0), 0) == id && eq(&nth(Op::Enc, count(Op::Enc) - 1).a, &kr), "the answer goes out in the same session");
        let r = last_plain();
        if good {
            check(eq(&r, &[v.get_u8(), if end { 0x6C } else { 0x68 }, 0, 0]), "the request is acknowledged");
            cover("answered");
        } else {
            check(eq(&r, &[v.get_u8(), 0x7f, if m[0] != v.get_u8() { 0x41 } else { 1 }, 0]), "anything else gets the ERROR that fits");
            cover("refused");
        }
        if good && end {
            let s = &after.sess[which];
            check(s.id == 0 && s.state == 0 && s.th.is_none() && s.l1l2.is_none(), "the session is gone");
            let mut x = 0;
            for k in [&s.keys.0, &s.keys.1] {
                for b in k.encryption_key.as_ref() {
                    x |= b;
                }
                for b in k.salt.as_ref() {
                    x |= b;
                }
            }
            check(x == 0, "its keys are gone");
            cover("ended");
        } else {
            check(after.sess[which].id == id && after.sess[which].state == before.sess[which].state, "the session goes on");
            check(same_keys(&before.sess[which].keys.0, &after.sess[which].keys.0) && same_keys(&before.sess[which].keys.1, &after.sess[which].keys.1), "the session keeps its keys");
        }
    }
    core::mem::forget(ctx);
}
/// What still comes in for a session that has ended has no effect. param 0: application data
#[no_mangle]
pub extern "C" fn h_ended() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    w().rx_secured = true;
    let (mut io, mut trn) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = any_ver();
    let id = session_ctx(&mut ctx.common, v);
    let _ = ctx.common.append_message_a(&A);
    reply(2);
    let b: [u8; 8] = sym("record");
    let n = choose(9, "length") as usize;
    unsafe {
        RX = record(id, 0, &[v.get_u8(), 0xEC, 0, 0]);
        RX2 = record(id, choose(3, "sequence number") as u64, &b[..n]);
    }
    w().rx = Some(rx1);
    let _ = ctx.process_message(0, &[]);
    check(sent() == 1 && last_plain()[1] == 0x6C, "the end is acknowledged");
    let (d, e) = (count(Op::Dec), count(Op::Enc));
    w().rx_app = param(0) == 1;
    let before = snap(&mut ctx.common);
    let _ = ctx.process_message(0, &[]);
    let after = snap(&mut ctx.common);
    check(sent() == 1 && count(Op::Dec) == d && count(Op::Enc) == e && count(Op::App) == 0 && count(Op::Vendor) == 0, "a record of an ended session has no effect");
    check(same_conn(&before, &after, true) && same_sess(&before.sess[0], &after.sess[0], true) && same_sess(&before.sess[1], &after.sess[1], true), "nothing changes");
    cover("ignored");
    core::mem::forget(ctx);
}
