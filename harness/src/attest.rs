//! What the responder says about itself: digests, certificates, measurements, challenge.
use crate::env::*;
use crate::gate::*;
use crate::kex::*;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_digests", h_digests),
    ("h_certificate", h_certificate),
    ("h_certificate_big", h_certificate_big),
    ("h_chal", h_chal),
    ("h_meas", h_meas),
    ("h_meas_form", h_meas_form),
    ("h_attest_fail", h_attest_fail),
];
const A: [u8; 7] = [0xAA; 7];
static mut RX: Vec<u8> = Vec::new();
fn rx1(_i: usize) -> Option<Vec<u8>> {
    unsafe { Some(RX.clone()) }
}
/// Connection with two established sessions.
fn begin(c: &mut SpdmContext, v: SpdmVersion) {
    w().free_verdict = false;
    let _ = session_ctx(c, v);
    let _ = c.append_message_a(&A);
    set_state(c, 3 + choose(4, "state"));
}
/// Gives the request to the responder, outside a session or in the first one; the answer.
fn ask(ctx: &mut ResponderContext, sess: bool, m: &[u8]) -> Vec<u8> {
    let n = sent();
    if sess {
        w().rx_secured = true;
        unsafe { RX = record(0xFFFD_FFFD, 0, m) };
        w().rx = Some(rx1);
        let _ = ctx.process_message(0, &[]);
        check(sent() == n + 1, "the request gets one answer");
        nth(Op::Enc, count(Op::Enc) - 1).d[2..].to_vec()
    } else {
        let _ = ctx.dispatch_message(m);
        check(sent() == n + 1, "the request gets one answer");
        msg(n).to_vec()
    }
}
fn tr(t: &Option<Vec<u8>>, want: &[&[u8]]) -> bool {
    t.as_ref().map_or(false, |t| eq(t, &cat(want)))
}
fn oeq(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a, b),
        _ => false,
    }
}
fn others(b: &Snap, a: &Snap, m: bool) {
    check(b.neg == a.neg && eq(&b.a, &a.a), "what was negotiated stays");
    check(same_sess(&b.sess[1], &a.sess[1], true), "the other session is not affected");
    check(b.sess[0].id == a.sess[0].id && b.sess[0].state == a.sess[0].state && oeq(&b.sess[0].th, &a.sess[0].th), "the session stays");
    check(!m || oeq(&b.sess[0].l1l2, &a.sess[0].l1l2) && oeq(&b.l1l2, &a.l1l2) || a.l1l2.is_none(), "only measurements enter the measurement transcripts");
}

/// GET_DIGESTS. param 0: in a session
#[no_mangle]
pub extern "C" fn h_digests() {
    install();
    let (mut io, mut trn) = (Io, Tr);
    let sess = param(0) == 1;
    let mask = conc(sym_u8("provisioned slots") as usize) as u8;
    let mut pv = SpdmProvisionInfo::default();
    for i in 0..8 {
        if mask >> i & 1 == 1 {
            pv.my_cert_chain[i] = Some(chain(0x10 + 0x11 * i as u8, 4 + i));
        }
    }
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), pv);
    let v = ver(param(1) as u8);
    begin(&mut ctx.common, v);
    if choose(2, "earlier exchange") == 1 {
        let _ = ctx.common.append_message_b(&[0xBB; 5]);
    }
    let b: [u8; 8] = sym("request");
    let n = 2 + choose(4, "length") as usize;
    let mut m = b[..n].to_vec();
    m[1] = 0x81;
    let before = snap(&mut ctx.common);
    let r = ask(&mut ctx, sess, &m);
    let after = snap(&mut ctx.common);
    others(&before, &after, true);
    if m[0] != v.get_u8() {
        check(eq(&r, &[v.get_u8(), 0x7f, 0x41, 0]), "another version gets VersionMismatch");
        cover("refused");
    } else if n < 4 {
        check(eq(&r, &[v.get_u8(), 0x7f, 1, 0]), "a truncated request gets InvalidRequest");
    } else {
        let mut want = alloc::vec![v.get_u8(), 1, 0, mask];
        let mut k = 0;
        for i in 0..8usize {
            if mask >> i & 1 == 1 {
                let c = chain(0x10 + 0x11 * i as u8, 4 + i);
                let c = c.as_ref();
                check(r.len() >= 4 + H * (k + 1), "one digest for each provisioned slot");
                let d = &r[4 + H * k..4 + H * (k + 1)];
                check(by_out(Op::Hash, d).map_or(false, |e| eq(&e.a, c) && e.algo == SpdmBaseHashAlgo::TPM_ALG_SHA_256.bits()), "each digest is the hash of the slot's chain, in slot order");
                k += 1;
            }
        }
        check(r.len() == 4 + H * k && eq(&r[..4], &want), "the response names the provisioned slots");
        if sess {
            check(after.m1m2.is_none() || oeq(&before.m1m2, &after.m1m2), "an exchange in a session is not part of the connection's transcript");
        } else {
            check(tr(&after.m1m2, &[&A, &m[..4], &r]), "the exchange starts the certificate part of the transcript");
        }
        cover("answered");
    }
    core::mem::forget(ctx);
}

fn cert(ctx: &mut ResponderContext, v: SpdmVersion, sess: bool, c: &[u8], m: &[u8]) {
    let before = snap(&mut ctx.common);
    let r = ask(ctx, sess, m);
    let after = snap(&mut ctx.common);
    others(&before, &after, true);
    let kept = if sess { after.m1m2.is_none() || oeq(&before.m1m2, &after.m1m2) } else { oeq(&before.m1m2, &after.m1m2) };
    if m[0] != v.get_u8() {
        check(eq(&r, &[v.get_u8(), 0x7f, 0x41, 0]), "another version gets VersionMismatch");
        check(kept, "a refused request is not part of the transcript");
        cover("refused");
    } else if m.len() < 8 || m[2] != 0 || c.len() == 0 || le16(m, 4) > c.len() {
        check(eq(&r, &[v.get_u8(), 0x7f, 1, 0]), "a slot or offset there is not gets InvalidRequest");
        check(kept, "a refused request is not part of the transcript");
        cover("refused");
    } else {
        check(r.len() >= 8, "the response has all its fields");
        let (off, len) = (le16(m, 4), le16(m, 6));
        let want = len.min(512).min(c.len() - off);
        check(eq(&r[..4], &[v.get_u8(), 2, 0, 0]) && le16(&r, 4) == want, "header and portion length");
        check(le16(&r, 6) == c.len() - off - want, "the remainder is what follows the portion");
        let want = conc(want);
        let off = conc(off);
        check(r.len() == 8 + want && eq(&r[8..], &c[off..off + want]), "the portion is the part of the chain that was asked for");
        if sess {
            check(kept, "an exchange in a session is not part of the connection's transcript");
        } else {
            let pre = before.m1m2.clone().unwrap_or(A.to_vec());
            check(tr(&after.m1m2, &[&pre, &m[..8], &r]), "the exchange continues the certificate part of the transcript");
        }
        cover("answered");
    }
}
/// GET_CERTIFICATE, every offset and length. param 0: in a session, param 1: version, param 2: length of the certificates
#[no_mangle]
pub extern "C" fn h_certificate() {
    install();
    let (mut io, mut trn) = (Io, Tr);
    let sess = param(0) == 1;
    let mut pv = SpdmProvisionInfo::default();
    let n = 4 + H + param(2) as usize;
    let data: [u8; 4 + H + 28] = sym("chain");
    let have = choose(2, "provisioned") == 1;
    if have {
        let mut c = SpdmCertChainBuffer { data_size: n as u16, ..Default::default() };
        c.data[..n].copy_from_slice(&data[..n]);
        pv.my_cert_chain[0] = Some(c);
    }
    if choose(2, "another slot") == 1 {
        pv.my_cert_chain[2] = Some(chain(0x30, 20));
    }
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), pv);
    let v = ver(param(1) as u8);
    begin(&mut ctx.common, v);
    if choose(2, "earlier exchange") == 1 {
        let _ = ctx.common.append_message_b(&[0xBB; 5]);
    }
    let b: [u8; 10] = sym("request");
    let ml = [8, 7, 4, 10][choose(4, "request length") as usize];
    let mut m = b[..ml].to_vec();
    m[1] = 0x82;
    cert(&mut ctx, v, sess, if have { &data[..n] } else { &[] }, &m);
    core::mem::forget(ctx);
}
/// GET_CERTIFICATE on a chain longer than a portion. param 0: in a session
#[no_mangle]
pub extern "C" fn h_certificate_big() {
    install();
    let (mut io, mut trn) = (Io, Tr);
    let sess = param(0) == 1;
    let mut pv = SpdmProvisionInfo::default();
    let n = 1100usize;
    let mut c = SpdmCertChainBuffer { data_size: n as u16, ..Default::default() };
    check(c.data.len() >= n, "the chain fits");
    for i in 0..n {
        c.data[i] = (i as u8) ^ (i >> 8) as u8 ^ 0x35;
    }
    let data = c.data[..n].to_vec();
    pv.my_cert_chain[0] = Some(c);
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), pv);
    let v = ver(2);
    begin(&mut ctx.common, v);
    let offs = [0u16, 1, 255, 256, 511, 512, 587, 588, 589, 1024, 1099, 1100, 1101, 0x8000, 0xffff];
    let lens = [0u16, 1, 255, 256, 511, 512, 513, 514, 1024, 1100, 0x7fff, 0x8000, 0xffff];
    let o = offs[choose(offs.len() as u8, "offset") as usize];
    let l = lens[choose(lens.len() as u8, "length") as usize];
    let m = cat(&[&[0x12, 0x82, 0, 0], &o.to_le_bytes(), &l.to_le_bytes()]);
    cert(&mut ctx, v, sess, &data, &m);
    core::mem::forget(ctx);
}

/// CHALLENGE. param 0: version, param 1: request length
#[no_mangle]
pub extern "C" fn h_chal() {
    install();
    let (mut io, mut trn) = (Io, Tr);
    let mut pv = SpdmProvisionInfo::default();
    pv.my_cert_chain[0] = Some(chain(0x20, 16));
    pv.my_cert_chain[3] = Some(chain(0x60, 20));
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), pv);
    let v = ver(param(0) as u8);
    begin(&mut ctx.common, v);
    let meas = choose(3, "measurement capability");
    caps_rsp(&mut ctx.common, 0x46c2 | [0u32, 8, 0x10][meas as usize]);
    let bb: &[u8] = if choose(2, "certificates read") == 1 { &[0xBB; 5] } else { &[] };
    if bb.len() > 0 {
        let _ = ctx.common.append_message_b(bb);
    }
    if choose(2, "measurements read") == 1 {
        let _ = ctx.common.append_message_m(None, &[0xDD; 5]);
    }
    let b: [u8; 40] = sym("request");
    let n = param(1) as usize;
    let mut m = b[..n].to_vec();
    m[1] = 0x83;
    let before = snap(&mut ctx.common);
    let r = ask(&mut ctx, false, &m);
    let after = snap(&mut ctx.common);
    others(&before, &after, true);
    check(same_sess(&before.sess[0], &after.sess[0], true), "sessions are not affected");
    let full = n >= 36;
    let (slot, typ) = if n >= 4 { (m[2], m[3]) } else { (0, 0) };
    let good = m[0] == v.get_u8() && full && (slot == 0 || slot == 3) && (typ == 0 || meas > 0 && (typ == 1 || typ == 0xff));
    if r[1] == 0x7f {
        check(r.len() == 4 && r[0] == v.get_u8(), "the refusal is an ERROR of the negotiated version");
        if v == SpdmVersion::SpdmVersion12 {
            check(!good, "a good request is not refused");
        }
        if m[0] != v.get_u8() {
            check(eq(&r[2..], &[0x41, 0]), "another version gets VersionMismatch");
        } else if !good {
            check(eq(&r[2..], &[1, 0]), "a request with invalid fields gets InvalidRequest");
        }
        if !good {
            check(oeq(&before.m1m2, &after.m1m2), "a refused request is not part of the transcript");
            check(count(Op::Sign) == 0, "nothing is signed for a refused request");
        }
        cover("refused");
    } else {
        check(good && v == SpdmVersion::SpdmVersion12, "anything else is refused");
        let c = ctx.common.provision_info.my_cert_chain[conc(slot as usize)].as_ref().unwrap().as_ref().to_vec();
        let sum = if typ == 0 { 0 } else { H };
        check(r.len() == 4 + H + 32 + sum + 2 + SIG, "the response has exactly its fields");
        check(eq(&r[..3], &[0x12, 3, slot]), "header and slot");
        check(preimage(&r[4..4 + H]).map_or(false, |x| eq(x, &c)), "the response names the slot's chain");
        check(count(Op::Rand) == 1 && eq(&r[4 + H..36 + H], &nth(Op::Rand, 0).out), "the nonce is a fresh random number");
        let at = 36 + H;
        if typ != 0 {
            let e = by_out(Op::MSum, &r[at..at + H]);
            check(e.map_or(false, |e| e.n == typ as i64 && e.algo2 == 0x1201), "the measurement summary is of the type asked for");
        }
        check(le16(&r, at + sum) == 0, "no opaque data");
        let end = at + sum + 2;
        let e = by_out(Op::Sign, &r[end..]);
        check(e.is_some() && count(Op::Sign) == 1, "the response is signed");
        let e = e.unwrap();
        check(e.algo == SpdmBaseHashAlgo::TPM_ALG_SHA_256.bits() && e.algo2 == SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256.bits(), "signature algorithms as negotiated");
        check(over(&e.a, &signing("responder-challenge_auth signing"), &cat(&[&A, bb, &m[..36], &r[..end]])), "the signature covers negotiation, certificates, this request and this response");
        check(after.m1m2.is_none(), "the next authentication starts anew");
        cover("answered");
    }
    core::mem::forget(ctx);
}

/// GET_MEASUREMENTS. param 0: version, param 1: in a session, param 2: signed
#[no_mangle]
pub extern "C" fn h_meas() {
    install();
    let (mut io, mut trn) = (Io, Tr);
    let mut pv = SpdmProvisionInfo::default();
    pv.my_cert_chain[0] = Some(chain(0x20, 16));
    pv.my_cert_chain[3] = Some(chain(0x60, 20));
    let mut cfg = SpdmConfigInfo::default();
    cfg.runtime_content_change_support = choose(2, "change detection") == 1;
    let detect = cfg.runtime_content_change_support;
    let mut ctx = ResponderContext::new(&mut io, &mut trn, cfg, pv);
    let vn = param(0);
    let v = ver(vn as u8);
    let sess = param(1) == 1;
    let signed = param(2) == 1;
    begin(&mut ctx.common, v);
    caps_rsp(&mut ctx.common, 0x46c2 | 0x10);
    w().meas_n = choose(4, "measurements");
    let mn = w().meas_n;
    let (ch, chb) = [
        (SpdmMeasurementContentChanged::NOT_SUPPORTED, 0u8),
        (SpdmMeasurementContentChanged::DETECTED_CHANGE, 0x10),
        (SpdmMeasurementContentChanged::NO_CHANGE, 0x20),
    ][choose(3, "content changed") as usize];
    ctx.common.runtime_info.content_changed = ch;
    // measurements read before, outside and in either session
    let hist = choose(4, "measurements read");
    if hist & 1 == 1 {
        let _ = ctx.common.append_message_m(None, &[0xD1; 5]);
        let _ = ctx.common.append_message_m(Some(0xFFFC_FFFC), &[0xD3; 5]);
    }
    if hist & 2 == 2 {
        let _ = ctx.common.append_message_m(Some(0xFFFD_FFFD), &[0xD2; 5]);
        let _ = ctx.common.append_message_b(&[0xBB; 5]);
    }
    let b: [u8; 37] = sym("request");
    let n = if !signed { 4 } else if vn == 0 { 36 } else { 37 };
    let mut m = b[..n].to_vec();
    m[1] = 0xE0;
    assume((m[2] & 1 == 1) == signed);
    let op = m[3];
    let slot = if signed && vn > 0 { m[36] } else { 0 };
    let before = snap(&mut ctx.common);
    let r = ask(&mut ctx, sess, &m);
    let after = snap(&mut ctx.common);
    check(before.neg == after.neg && eq(&before.a, &after.a), "what was negotiated stays");
    check(same_sess(&before.sess[1], &after.sess[1], true), "the other session is not affected");
    check(before.sess[0].id == after.sess[0].id && before.sess[0].state == after.sess[0].state && oeq(&before.sess[0].th, &after.sess[0].th), "the session stays");
    let (lb, la) = if sess { (&before.sess[0].l1l2, &after.sess[0].l1l2) } else { (&before.l1l2, &after.l1l2) };
    let (ob, oa) = if sess { (&before.l1l2, &after.l1l2) } else { (&before.sess[0].l1l2, &after.sess[0].l1l2) };
    check(oeq(ob, oa), "measurements outside and in sessions are separate");
    let good = m[0] == v.get_u8() && m[2] < 4 && (op == 0 || op == 0xff || op <= mn) && (slot == 0 || slot == 3);
    if r[1] == 0x7f {
        check(r.len() == 4 && r[0] == v.get_u8(), "the refusal is an ERROR of the negotiated version");
        if v == SpdmVersion::SpdmVersion12 || !signed {
            check(!good, "a good request is not refused");
        }
        if m[0] != v.get_u8() {
            check(eq(&r[2..], &[0x41, 0]), "another version gets VersionMismatch");
        } else if !good {
            check(eq(&r[2..], &[1, 0]), "a request with invalid fields gets InvalidRequest");
        }
        check(count(Op::Sign) == 0, "nothing is signed for a refused request");
        if !good {
            check(oeq(lb, la), "a refused request is not part of the transcript");
        }
        cover("refused");
    } else {
        check(good && (!signed || v == SpdmVersion::SpdmVersion12), "anything else is refused");
        let blocks = if op == 0 { 0 } else if op == 0xff { mn as usize } else { 1 };
        let rl = blocks * BLK;
        check(r.len() == 8 + rl + 32 + 2 + if signed { SIG } else { 0 }, "the response has exactly its fields");
        let p2 = if signed { slot | if detect { chb } else { 0 } } else { 0 };
        check(eq(&r[..4], &[v.get_u8(), 0x60, if op == 0 { mn } else { 0 }, p2]), "header, total number when asked for, slot and change indication");
        check(r[4] == blocks as u8 && eq(&r[5..8], &[rl as u8, 0, 0]), "number of blocks and length of the record");
        let mut want = Vec::new();
        for i in 0..blocks {
            let k = if op == 0xff { 1 + i as u8 } else { op };
            want.extend_from_slice(&[k, 1, 11, 0, 0x80, 8, 0, 0x70 + k, 1, 2, 3, 4, 5, 6, 7]);
        }
        check(eq(&r[8..8 + rl], &want), "the record has the measurements asked for");
        for e in w().log.iter().filter(|e| e.op == Op::Meas) {
            check(e.algo2 == v.get_u8() as u32 * 256 + 1 && e.algo == SpdmMeasurementHashAlgo::TPM_ALG_SHA_256.bits(), "measured with the negotiated specification and hash");
        }
        check(count(Op::Rand) == 1 && eq(&r[8 + rl..40 + rl], &nth(Op::Rand, 0).out), "the nonce is a fresh random number");
        check(le16(&r, 40 + rl) == 0, "no opaque data");
        let a: &[u8] = if v == SpdmVersion::SpdmVersion12 { &A } else { &[] };
        let pre = lb.clone().unwrap_or(a.to_vec());
        let end = 42 + rl;
        if signed {
            let e = by_out(Op::Sign, &r[end..]);
            check(e.is_some() && count(Op::Sign) == 1, "the response is signed");
            let e = e.unwrap();
            check(e.algo == SpdmBaseHashAlgo::TPM_ALG_SHA_256.bits() && e.algo2 == SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256.bits(), "signature algorithms as negotiated");
            check(over(&e.a, &signing("responder-measurements signing"), &cat(&[&pre, &m, &r[..end]])), "the signature covers negotiation and all measurements since the last one");
            check(la.is_none(), "the next measurements start anew");
            cover("signed");
        } else {
            check(count(Op::Sign) == 0, "nothing is signed that was not asked for");
            check(tr(la, &[&pre, &m, &r]), "the exchange continues the measurement transcript");
            cover("answered");
        }
    }
    core::mem::forget(ctx);
}
/// GET_MEASUREMENTS of any length. param 0: version, param 1: length
#[no_mangle]
pub extern "C" fn h_meas_form() {
    install();
    let (mut io, mut trn) = (Io, Tr);
    let mut pv = SpdmProvisionInfo::default();
    pv.my_cert_chain[0] = Some(chain(0x20, 16));
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), pv);
    let vn = param(0);
    let v = ver(vn as u8);
    begin(&mut ctx.common, v);
    caps_rsp(&mut ctx.common, 0x46c2 | 0x10);
    let b: [u8; 44] = sym("request");
    let n = param(1) as usize;
    let mut m = b[..n].to_vec();
    m[1] = 0xE0;
    let sess = choose(2, "in a session") == 1;
    let before = snap(&mut ctx.common);
    let r = ask(&mut ctx, sess, &m);
    let after = snap(&mut ctx.common);
    let need = if n >= 3 && m[2] & 1 == 1 { if vn == 0 { 36 } else { 37 } } else { 4 };
    let (lb, la) = if sess { (&before.sess[0].l1l2, &after.sess[0].l1l2) } else { (&before.l1l2, &after.l1l2) };
    if n < need {
        check(r[1] == 0x7f && r.len() == 4, "a truncated request is refused");
        check(oeq(lb, la), "a refused request is not part of the transcript");
        cover("refused");
    } else if r[1] != 0x7f && m[2] & 1 == 0 {
        let a: &[u8] = if v == SpdmVersion::SpdmVersion12 { &A } else { &[] };
        check(tr(la, &[a, &m[..need], &r]), "bytes after the request are not part of the transcript");
        cover("answered");
    }
    core::mem::forget(ctx);
}
/// Any call that fails: an ERROR, no half answer, nothing else touched. param 0: opcode, param 1: in a session
#[no_mangle]
pub extern "C" fn h_attest_fail() {
    install();
    w().rand_concrete = true;
    let (mut io, mut trn) = (Io, Tr);
    let mut pv = SpdmProvisionInfo::default();
    pv.my_cert_chain[0] = Some(chain(0x20, 16));
    pv.my_cert_chain[3] = Some(chain(0x60, 20));
    let mut ctx = ResponderContext::new(&mut io, &mut trn, SpdmConfigInfo::default(), pv);
    let v = any_ver();
    let sess = param(1) == 1;
    begin(&mut ctx.common, v);
    caps_rsp(&mut ctx.common, 0x46c2 | 0x10);
    if choose(2, "earlier exchange") == 1 {
        let _ = ctx.common.append_message_b(&[0xBB; 5]);
        let _ = ctx.common.append_message_m(if sess { Some(0xFFFD_FFFD) } else { None }, &[0xD1; 5]);
    }
    let op = param(0) as u8;
    let mut m = alloc::vec![v.get_u8(), op];
    let mut signed = false;
    match op {
        0x81 => m.extend_from_slice(&[0, 0]),
        0x82 => m.extend_from_slice(&[0, 0, 0, 0, 16, 0]),
        0x83 => {
            m.extend_from_slice(&[0, if choose(2, "summary") == 1 { 0xff } else { 0 }]);
            m.extend_from_slice(&[7; 32]);
        }
        _ => {
            signed = choose(2, "signed") == 1;
            m.extend_from_slice(&[signed as u8, [0, 0xff, 1][choose(3, "operation") as usize]]);
            if signed {
                m.extend_from_slice(&[7; 33]);
                if v != SpdmVersion::SpdmVersion10 {
                    m[36] = 0;
                }
            }
        }
    }
    let before = snap(&mut ctx.common);
    let f = choose(14, "failing call") as usize;
    w().fail_at = w().calls + f;
    w().failed = false;
    if sess {
        w().rx_secured = true;
        unsafe { RX = record(0xFFFD_FFFD, 0, &m) };
        w().rx = Some(rx1);
        let _ = ctx.process_message(0, &[]);
    } else {
        let _ = ctx.dispatch_message(&m);
    }
    let after = snap(&mut ctx.common);
    others(&before, &after, false);
    if w().failed {
        let r: &[u8] = if sess {
            if sent() == 0 {
                // protecting the answer failed
                &[]
            } else {
                &nth(Op::Enc, count(Op::Enc) - 1).d[2..]
            }
        } else {
            check(sent() == 1, "one answer");
            msg(0)
        };
        if r.len() > 0 {
            check(eq(r, &[v.get_u8(), 0x7f, 5, 0]), "an internal failure is answered with Unspecified alone");
        }
        cover("failed");
    } else {
        cover("answered");
    }
    core::mem::forget(ctx);
}
