//! What the responder accepts in which phase.
use crate::env::*;
use crate::neg::*;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_gate", h_gate),
    ("h_gate_oos", h_gate_oos),
    ("h_gate_unknown", h_gate_unknown),
    ("h_state", h_state),
    ("h_phase", h_phase),
    ("h_phase_clear", h_phase_clear),
];
pub const HS: SpdmSessionState = SpdmSessionState::SpdmSessionHandshaking;
pub const EST: SpdmSessionState = SpdmSessionState::SpdmSessionEstablished;

/// Everything a refused request must leave alone.
pub struct Snap {
    pub st: u8,
    pub a: Vec<u8>,
    pub m1m2: Option<Vec<u8>>,
    pub l1l2: Option<Vec<u8>>,
    pub neg: Vec<u32>,
    pub sess: Vec<Sess>,
}
pub struct Sess {
    pub id: u32,
    pub state: u8,
    pub th: Option<Vec<u8>>,
    pub l1l2: Option<Vec<u8>>,
    pub keys: (SpdmSessionSecretParam, SpdmSessionSecretParam),
}
fn opt(t: Option<&'static [u8]>) -> Option<Vec<u8>> {
    t.map(|t| t.to_vec())
}
pub fn sess_of(s: &mut SpdmSession) -> Sess {
    Sess {
        id: s.get_session_id(),
        state: s.get_session_state().get_u8(),
        th: th_of(s),
        l1l2: l1l2_of(s),
        keys: s.export_keys(),
    }
}
pub fn snap(c: &mut SpdmContext) -> Snap {
    let n = &c.negotiate_info;
    let neg = alloc::vec![
        n.spdm_version_sel.get_u8() as u32,
        n.base_hash_sel.bits(),
        n.base_asym_sel.bits(),
        n.dhe_sel.bits() as u32,
        n.aead_sel.bits() as u32,
        n.req_asym_sel.bits() as u32,
        n.key_schedule_sel.bits() as u32,
        n.measurement_hash_sel.bits(),
        n.req_capabilities_sel.bits(),
        n.rsp_capabilities_sel.bits(),
    ];
    Snap {
        st: c.runtime_info.get_connection_state().get_u8(),
        a: c.runtime_info.message_a.as_ref().to_vec(),
        m1m2: m1m2(c),
        l1l2: l1l2(c),
        neg,
        sess: alloc::vec![sess_of(&mut c.session[0]), sess_of(&mut c.session[1])],
    }
}
fn oeq(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a, b),
        _ => false,
    }
}
pub fn same_keys(a: &SpdmSessionSecretParam, b: &SpdmSessionSecretParam) -> bool {
    eq(a.encryption_key.as_ref(), b.encryption_key.as_ref()) && eq(a.salt.as_ref(), b.salt.as_ref())
}
pub fn same_sess(a: &Sess, b: &Sess, seq: bool) -> bool {
    a.id == b.id
        && a.state == b.state
        && oeq(&a.th, &b.th)
        && oeq(&a.l1l2, &b.l1l2)
        && same_keys(&a.keys.0, &b.keys.0)
        && same_keys(&a.keys.1, &b.keys.1)
        && (!seq || a.keys.0.sequence_number == b.keys.0.sequence_number && a.keys.1.sequence_number == b.keys.1.sequence_number)
}
pub fn same_conn(a: &Snap, b: &Snap, tr: bool) -> bool {
    a.st == b.st && a.neg == b.neg && eq(&a.a, &b.a) && (!tr || oeq(&a.m1m2, &b.m1m2) && oeq(&a.l1l2, &b.l1l2))
}
/// Uses of keys, signatures, random numbers and secrets.
pub fn secrets_used() -> usize {
    w().log.iter().filter(|e| !matches!(e.op, Op::Sent | Op::Recv | Op::Hash | Op::CertGet)).count()
}
fn provisioned() -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    p.my_cert_chain[0] = Some(chain(0x20, 16));
    p
}

/// Requests that need a negotiated connection, before there is one. param 0: opcode, param 1: length
#[no_mangle]
pub extern "C" fn h_gate() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), provisioned());
    let st = choose(3, "state");
    let v = any_ver();
    // after VERSION nothing is negotiated; what an earlier connection left must not matter either
    if choose(2, "left over") == 1 {
        negotiate(&mut ctx.common, v);
        caps_rsp(&mut ctx.common, 0x46c2);
        caps_req(&mut ctx.common, 0x42c2);
    } else {
        ctx.common.negotiate_info.spdm_version_sel = v;
    }
    set_state(&mut ctx.common, st);
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let n = param(1) as usize;
    let mut m: [u8; 144] = sym("request");
    m[1] = param(0) as u8;
    let before = snap(&mut ctx.common);
    let used = secrets_used();
    let _ = ctx.dispatch_message(&m[..n]);
    let after = snap(&mut ctx.common);
    check(secrets_used() == used, "no key, signature or random number is used for a request out of order");
    check(same_conn(&before, &after, true) && same_sess(&before.sess[0], &after.sess[0], true) && same_sess(&before.sess[1], &after.sess[1], true), "a request out of order changes nothing");
    check(sent() == 1, "a request out of order is answered once");
    check(eq(msg(0), &[v.get_u8(), 0x7f, 4, 0]), "the answer is UnexpectedRequest");
    cover("refused");
    core::mem::forget(ctx);
}

fn two_sessions(c: &mut SpdmContext, st: u8, v: SpdmVersion, s0: SpdmSessionState) {
    let _ = session_ctx(c, v);
    c.session[0].set_session_state(s0);
    let _ = c.append_message_a(&[0xAA; 7]);
    set_state(c, st);
}

/// Requests that belong in a session, outside of one. param 0: opcode
#[no_mangle]
pub extern "C" fn h_gate_oos() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), provisioned());
    let op = param(0) as u8;
    let st = choose(7, "state");
    let v = any_ver();
    two_sessions(&mut ctx.common, st, v, if choose(2, "handshaking") == 1 { HS } else { EST });
    // FINISH outside the session belongs to a handshake in the clear, which takes both sides
    let (cq, cr) = (choose(2, "requester in the clear") == 1, choose(2, "responder in the clear") == 1);
    let last = choose(2, "last session") == 1;
    assume(op != 0xE5 || !(cq && cr) || !last || ctx.common.session[0].get_session_state() != HS);
    caps_req(&mut ctx.common, 0x42c2 | if cq { 0x8000 } else { 0 });
    caps_rsp(&mut ctx.common, 0x46c2 | if cr { 0x8000 } else { 0 });
    if last {
        ctx.common.runtime_info.set_last_session_id(Some(0xFFFD_FFFD));
    }
    let n = 2 + 2 * choose(6, "length") as usize;
    let mut m: [u8; 12] = sym("request");
    m[1] = op;
    let before = snap(&mut ctx.common);
    let used = secrets_used();
    let _ = ctx.dispatch_message(&m[..n]);
    let after = snap(&mut ctx.common);
    check(secrets_used() == used, "no key is used for a session request outside a session");
    check(same_conn(&before, &after, true) && same_sess(&before.sess[0], &after.sess[0], true) && same_sess(&before.sess[1], &after.sess[1], true), "a session request outside a session changes nothing");
    check(sent() == 1, "the request is answered once");
    let e = if m[0] != v.get_u8() {
        [0x41, 0]
    } else if op == 0xFF {
        [7, 0xFF]
    } else {
        [4, 0]
    };
    check(eq(msg(0), &[v.get_u8(), 0x7f, e[0], e[1]]), "the answer is the ERROR that fits");
    cover("refused");
    core::mem::forget(ctx);
}

const REQUESTS: [u8; 19] = [0x81, 0x82, 0x83, 0x84, 0xE0, 0xE1, 0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xEB, 0xEC, 0xFE, 0xFF, 0];

/// Codes that are no requests, and encapsulated messages outside a session. No answer, no effect.
#[no_mangle]
pub extern "C" fn h_gate_unknown() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), provisioned());
    let st = choose(7, "state");
    let v = any_ver();
    two_sessions(&mut ctx.common, st, v, EST);
    let n = choose(8, "length") as usize;
    let m: [u8; 8] = sym("request");
    if n >= 2 {
        for r in REQUESTS {
            assume(m[1] != r || r == 0 || r == 0xEA || r == 0xEB);
        }
    }
    let before = snap(&mut ctx.common);
    let used = secrets_used();
    let _ = ctx.dispatch_message(&m[..n]);
    let after = snap(&mut ctx.common);
    check(sent() == 0, "what is no request is not answered");
    check(secrets_used() == used, "no key is used for what is no request");
    check(same_conn(&before, &after, true) && same_sess(&before.sess[0], &after.sess[0], true) && same_sess(&before.sess[1], &after.sess[1], true), "what is no request changes nothing");
    cover("ignored");
    core::mem::forget(ctx);
}

/// Advancing of the connection state. param 0: opcode
#[no_mangle]
pub extern "C" fn h_state() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), provisioned());
    let op = param(0) as u8;
    let st = 3 + choose(4, "state");
    negotiate(&mut ctx.common, ver(2));
    caps_rsp(&mut ctx.common, 0x46c2 | 0x4000);
    caps_req(&mut ctx.common, 0x42c2 | 0x4000);
    set_state(&mut ctx.common, st);
    let _ = ctx.common.append_message_a(&[0xAA; 7]);
    let mut m: [u8; 40] = sym("request");
    m[0] = 0x12;
    m[1] = op;
    if op == 0x82 {
        // the portions themselves are the business of another harness
        assume(m[4] < 4 && m[5] == 0 && m[6] < 3 && m[7] == 0);
        m[6] = conc(m[6] as usize) as u8;
        m[4] = conc(m[4] as usize) as u8;
    }
    let n = match op {
        0x81 => 4,
        0x82 => 8,
        0x83 => 36,
        0xE0 => 4 + 33,
        _ => 12,
    };
    let n = if choose(2, "short") == 1 { n - 1 } else { n };
    let f = choose(12, "failing call") as usize;
    w().fail_at = if f == 0 { usize::MAX } else { w().calls + f - 1 };
    w().failed = false;
    w().io_fail = if choose(2, "send fails") == 1 { 0 } else { usize::MAX };
    let _ = ctx.dispatch_message(&m[..n]);
    let now = ctx.common.runtime_info.get_connection_state().get_u8();
    let reached = if sent() == 0 {
        st
    } else {
        check(sent() == 1, "one answer");
        match msg(0)[1] {
            0x01 => st.max(4),
            0x02 => st.max(5),
            0x03 => 6,
            _ => st,
        }
    };
    check(now == reached, "the connection advances with the response that was sent, and with nothing else");
    if sent() == 1 {
        check(msg(0)[1] == 0x7f || (msg(0)[1] | 0x80 == op && !w().failed), "a request is answered with its response, or ERROR when something fails");
        cover(if msg(0)[1] == 0x7f { "refused" } else { "answered" });
    }
    core::mem::forget(ctx);
}

/// A request in a session. param 0: opcode (0: codes that are no requests), param 1: established
#[no_mangle]
pub extern "C" fn h_phase() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), provisioned());
    let op = param(0) as u8;
    let est = param(1) == 1;
    let st = 3 + choose(4, "state");
    let v = any_ver();
    two_sessions(&mut ctx.common, st, v, if est { EST } else { HS });
    let s1 = choose(2, "other session") == 1;
    ctx.common.session[1].set_session_state(if s1 { EST } else { HS });
    w().app_reply = alloc::vec![0x31, 0x32];
    let n = 2 + choose(10, "length") as usize;
    let mut m: [u8; 12] = sym("request");
    if op != 0 {
        m[1] = op;
    } else {
        for r in REQUESTS {
            assume(m[1] != r || r == 0);
        }
    }
    if op == 0x82 && n >= 8 {
        // the portions themselves are the business of another harness
        assume(m[4] < 4 && m[5] == 0 && m[6] < 3 && m[7] == 0);
        m[4] = conc(m[4] as usize) as u8;
        m[6] = conc(m[6] as usize) as u8;
    }
    w().rx_secured = true;
    let (key, _) = dir_keys(&ctx.common.session[0], if est { EST } else { HS }, false);
    unsafe { RX = record(0xFFFD_FFFD, 0, &m[..n]) };
    w().rx = Some(rx1);
    let before = snap(&mut ctx.common);
    let used = secrets_used();
    let decs = count(Op::Dec);
    let _ = ctx.process_message(0, &[]);
    let after = snap(&mut ctx.common);
    check(count(Op::Dec) == decs + 1, "the record is decrypted");
    check(same_sess(&before.sess[1], &after.sess[1], true), "other sessions are not affected");
    check(after.st == before.st && after.neg == before.neg && eq(&before.a, &after.a), "the connection is not affected");
    let allowed = if est { matches!(op, 0x81 | 0x82 | 0xE0 | 0xE8 | 0xE9 | 0xEC | 0xFE) } else { matches!(op, 0xE5 | 0xE7 | 0xEA | 0xEB | 0xFE) };
    let silent = op == 0 || (est && (op == 0xEA || op == 0xEB));
    if silent {
        check(sent() == 0 && secrets_used() == used + 1, "what is no request of this phase is not answered");
        cover("ignored");
    } else {
        check(sent() == 1, "a request in a session gets one answer");
        let e = nth(Op::Enc, count(Op::Enc) - 1);
        let s = &e.d[2..];
        check(eq(&msg(0)[..4], &0xFFFD_FFFDu32.to_le_bytes()) && eq(&msg(0)[msg(0).len() - 16..], &e.out), "the answer is a record of this session");
        if op != 0xE9 {
            check(eq(&e.a, &key), "the answer is protected with the response key of the phase the request came in");
        }
        check(s[0] == v.get_u8(), "the answer has the negotiated version");
        if allowed {
            check(s[1] == 0x7f || s[1] | 0x80 == op, "the answer is the response or an ERROR");
            check(m[0] == v.get_u8() || eq(s, &[v.get_u8(), 0x7f, 0x41, 0]), "another version gets VersionMismatch");
            cover("allowed");
        } else {
            let x = if m[0] != v.get_u8() {
                [0x41, 0]
            } else if op == 0xFF {
                [7, 0xFF]
            } else {
                [4, 0]
            };
            check(eq(s, &[v.get_u8(), 0x7f, x[0], x[1]]), "a request that does not belong in this phase gets the ERROR that fits");
            check(secrets_used() == used + 2, "it uses no key but the record's");
            check(oeq(&before.m1m2, &after.m1m2) && oeq(&before.l1l2, &after.l1l2), "it leaves the transcripts");
            cover("refused");
        }
    }
    let ended = est && op == 0xEC && sent() == 1 && nth(Op::Enc, count(Op::Enc) - 1).d[3] == 0x6c;
    if ended {
        check(after.sess[0].id == 0 && after.sess[0].state == 0, "END_SESSION frees the session");
    } else {
        check(after.sess[0].id == before.sess[0].id && after.sess[0].state == before.sess[0].state, "the session stays in its phase");
        if op != 0xE9 {
            check(same_keys(&before.sess[0].keys.0, &after.sess[0].keys.0) && same_keys(&before.sess[0].keys.1, &after.sess[0].keys.1), "the session keeps its keys");
        }
    }
    if !allowed {
        check(oeq(&before.sess[0].th, &after.sess[0].th) && oeq(&before.sess[0].l1l2, &after.sess[0].l1l2), "the session's transcripts stay");
    }
    core::mem::forget(ctx);
}

/// Records the responder must not act on: application data before the session is established, any
/// record when the handshake is in the clear, records of sessions there are not.
#[no_mangle]
pub extern "C" fn h_phase_clear() {
    install();
    w().free_verdict = false;
    w().rx_secured = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), provisioned());
    let v = any_ver();
    two_sessions(&mut ctx.common, 5, v, HS);
    w().app_reply = alloc::vec![0x31, 0x32];
    let n = choose(9, "length") as usize;
    let m: [u8; 8] = sym("data");
    let mut id = 0xFFFD_FFFDu32;
    let case = choose(4, "case");
    match case {
        0 => w().rx_app = true,
        1 => {
            caps_req(&mut ctx.common, 0x42c2 | 0x8000);
            caps_rsp(&mut ctx.common, 0x46c2 | 0x8000);
        }
        2 => {
            id = sym_u32("session");
            assume(id != 0xFFFD_FFFD && id != 0xFFFC_FFFC);
            w().rx_app = choose(2, "app") == 1;
        }
        _ => {
            // a session that was never brought up
            ctx.common.session[0].set_session_state(SpdmSessionState::SpdmSessionNotStarted);
            w().rx_app = choose(2, "app") == 1;
        }
    }
    unsafe { RX = record(id, 0, &m[..n]) };
    w().rx = Some(rx1);
    let before = snap(&mut ctx.common);
    let _ = ctx.process_message(0, &[7]);
    let after = snap(&mut ctx.common);
    check(sent() == 0 && count(Op::App) == 0 && count(Op::Vendor) == 0, "the record has no effect");
    check(same_conn(&before, &after, true) && same_sess(&before.sess[0], &after.sess[0], true) && same_sess(&before.sess[1], &after.sess[1], true), "nothing changes");
    cover("ignored");
    core::mem::forget(ctx);
}
static mut RX: Vec<u8> = Vec::new();
fn rx1(i: usize) -> Option<Vec<u8>> {
    unsafe { Some(RX.clone()) }
}
