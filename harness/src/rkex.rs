//! Session establishment at the requester: KEY_EXCHANGE, PSK_EXCHANGE, FINISH, PSK_FINISH.
use crate::env::*;
use crate::gate::*;
use crate::kex::*;
use crate::rneg::answer;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_rq_kex", h_rq_kex),
    ("h_rq_kex_form", h_rq_kex_form),
    ("h_rq_psk", h_rq_psk),
    ("h_rq_psk_form", h_rq_psk_form),
    ("h_rq_finish", h_rq_finish),
    ("h_rq_psk_finish", h_rq_psk_finish),
    ("h_rq_start", h_rq_start),
];
const A: [u8; 7] = [0xAA; 7];
const OTHER: u32 = 0x1234_FFFD;
const SHA: u32 = SpdmBaseHashAlgo::TPM_ALG_SHA_256.bits();
fn clear_both(clear: u8) -> bool {
    clear == 3
}
/// A negotiated connection with one other session; chains of slots 0 and 3 of the peer known.
fn begin(c: &mut SpdmContext, v: SpdmVersion, clear: u8, caps: u32, mutual: u8) {
    negotiate(c, v);
    caps_rsp(c, 0x42c2 | caps | if clear & 1 != 0 { 0x8000 } else { 0 } | if mutual & 1 != 0 { 0x100 } else { 0 });
    caps_req(c, 0x42c2 | 0x400 | if clear & 2 != 0 { 0x8000 } else { 0 } | if mutual & 2 != 0 { 0x100 } else { 0 });
    set_state(c, 5);
    let _ = c.append_message_a(&A);
    c.peer_info.peer_cert_chain[0] = Some(chain(0x20, 16));
    c.peer_info.peer_cert_chain[3] = Some(chain(0x60, 21));
    keyed(&mut c.session[0], OTHER, v, &[7; 64]);
    c.session[0].set_session_state(if choose(2, "other session established") == 1 { EST } else { HS });
}
fn chain_data(fill: u8, n: usize) -> SpdmCertChainData {
    let mut d = SpdmCertChainData { data_size: n as u16, ..Default::default() };
    for i in 0..n {
        d.data[i] = fill.wrapping_add(i as u8);
    }
    d
}
fn hash_of(b: &[u8]) -> Vec<u8> {
    spdmlib::crypto::hash::hash_all(SpdmBaseHashAlgo::TPM_ALG_SHA_256, b).unwrap().as_ref().to_vec()
}
fn list(v: SpdmVersion) -> Vec<u8> {
    let e: &[u8] = &[0, 0, 7, 0, 1, 1, 2, 0, 0x10, 0, 0x11, 0];
    cat(&[if v != SpdmVersion::SpdmVersion12 { b"FTMD\x01\x01\0\0" } else { b"\x01\0\0\0" }, e])
}
fn selection(v: SpdmVersion, x: u8) -> Vec<u8> {
    cat(&[if v != SpdmVersion::SpdmVersion12 { b"FTMD\x01\x01\0\0" } else { b"\x01\0\0\0" }, &[0, 0, 4, 0, 1, 0, 0, x]])
}
fn types(i: usize) -> (SpdmMeasurementSummaryHashType, u8) {
    match i {
        0 => (SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone, 0),
        1 => (SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb, 1),
        _ => (SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll, 0xff),
    }
}
fn quiet(b: &Snap, a: &Snap) {
    check(b.neg == a.neg && b.st == a.st && eq(&b.a, &a.a), "what was negotiated stays");
    check(same_sess(&b.sess[0], &a.sess[0], true), "the other session is not affected");
}

/// One KEY_EXCHANGE with the given response.
fn kex(v: SpdmVersion, clear: u8, typ: usize, slot: u8, m: &[u8], mutual: u8, fails: bool) {
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo::default();
    cfg.session_policy = 1;
    let mut ctx = RequesterContext::new(&mut io, &mut tr, cfg, SpdmProvisionInfo::default());
    begin(&mut ctx.common, v, clear, 0x10, mutual);
    let clear = clear_both(clear);
    let cert = ctx.common.peer_info.peer_cert_chain.get(slot as usize).and_then(|c| c.as_ref()).map(|c| c.as_ref().to_vec());
    let ch = cert.as_ref().map(|c| hash_of(c));
    let before = snap(&mut ctx.common);
    answer(&[m]);
    if fails {
        w().fail_at = w().calls + choose(40, "failing call") as usize;
    }
    let r = ctx.send_receive_spdm_key_exchange(slot, types(typ).0);
    let failed = w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    if r.is_err() {
        check(after.sess[1].id == 0 && after.sess[1].state == 0, "no session is left behind");
    }
    if slot >= 8 {
        check(r.is_err() && sent() == 0, "there are slots 0 to 7");
        cover("no such slot");
        core::mem::forget(ctx);
        return;
    }
    if sent() == 0 {
        check(failed && r.is_err(), "only a failure keeps the request from going out");
        core::mem::forget(ctx);
        return;
    }
    check(sent() == 1, "one request");
    let q = msg(0);
    check(count(Op::DheGen) == 1 && count(Op::Rand) == 1, "a fresh exchange value and a fresh random number");
    let own = nth(Op::DheGen, 0).out.clone();
    let ol = list(v);
    check(eq(q, &cat(&[&[v.get_u8(), 0xE4, types(typ).1, slot, 0xFC, 0xFF, if v == SpdmVersion::SpdmVersion12 { 1 } else { 0 }, 0], &nth(Op::Rand, 0).out, &own, &[ol.len() as u8, 0], &ol])), "KEY_EXCHANGE as asked for");
    let n = m.len();
    let sl = if typ == 0 { 0 } else { H };
    let hm = if clear { 0 } else { H };
    let at = 8 + 32 + DHE + sl;
    let head = n >= 2 && m[0] == v.get_u8() && m[1] == 0x64;
    let mut form = head && n >= at + 2 + SIG + hm;
    let mut end = 0;
    if form {
        let ol = le16(m, at);
        form = ol <= n - at - 2 - SIG - hm;
        if form {
            end = at + 2 + conc(ol);
        }
    }
    let proof = count(Op::Verify) == 1 && nth(Op::Verify, 0).ok && (clear || count(Op::HmacV) == 1 && nth(Op::HmacV, 0).ok);
    let may = form && (m[6] == 0 || mutual == 3 && ((m[6] == 1) | (m[6] == 2) | (m[6] == 4)));
    if let Ok(id) = r {
        cover("accepted");
        check(!failed, "nothing failed");
        check(form, "the response has all its fields");
        check(may, "mutual authentication is only asked for when both can");
        check(cert.is_some(), "the certificates of the slot are known");
        check(proof, "signature and HMAC have been verified");
        check(v == SpdmVersion::SpdmVersion12, "signing over transcript hashes takes version 1.2");
        check(id == (le16(m, 4) as u32) << 16 | 0xFFFC, "the session has the id of both halves");
        let cc = cert.as_ref().unwrap();
        let th = |e: &[&[u8]]| cat(&[&A, ch.as_ref().unwrap(), q, &m[..end], &cat(e)]);
        let sig = &m[end..end + SIG];
        let e = nth(Op::Verify, 0);
        check(e.algo == SHA && e.algo2 == SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256.bits(), "with the negotiated algorithms");
        check(eq(&e.a, &cc[4 + H..]) && eq(&e.c, sig), "the signature with the certificates of the slot");
        check(over(&e.b, &signing("responder-key_exchange_rsp signing"), &th(&[])), "the signature covers context and transcript");
        let s = &ctx.common.session[1];
        check(s.get_session_id() == id && s.get_session_state() == HS && !s.get_use_psk(), "the session is in its handshake");
        check(s.heartbeat_period == m[2], "the session has the heartbeat period announced");
        check(s.get_mut_auth_requested().bits() == m[6], "mutual authentication as asked for");
        let th1 = th(&[sig]);
        let (_, rs) = phase_keys(s, v, HS, &Root::Dhe(&own, &m[40..40 + DHE]), &th1);
        if !clear {
            check(finished(Op::HmacV, &m[end + SIG..end + SIG + H], v, &rs, &th1), "the HMAC under the responder's finished key over the transcript");
        }
        let sel = selection(v, 0);
        let o = &m[at + 2..end];
        if o.len() == sel.len() && eq(&o[..o.len() - 1], &sel[..o.len() - 1]) && (o[o.len() - 1] == 0x10 || o[o.len() - 1] == 0x11) {
            check(s.secure_spdm_version_sel == o[o.len() - 1], "the selected version is used");
            cover("version selected");
        }
        // the transcript so far
        check(th_of(s).map_or(false, |t| eq(&t, &if clear { th1.clone() } else { cat(&[&th1, &m[end + SIG..end + SIG + H]]) })), "the transcript goes on with the whole response");
    } else {
        let good = may && v == SpdmVersion::SpdmVersion12 && cert.is_some() && !failed && (count(Op::Verify) == 0 || proof) && m[7] < 8;
        check(!good, "a good answer is accepted");
        cover("refused");
        if count(Op::Verify) == 1 && !nth(Op::Verify, 0).ok {
            cover("bad signature");
        }
        if count(Op::HmacV) == 1 && !nth(Op::HmacV, 0).ok {
            cover("bad HMAC");
        }
    }
    core::mem::forget(ctx);
}
fn kex_len(typ: usize, clear: u8) -> usize {
    8 + 32 + DHE + if typ == 0 { 0 } else { H } + 2 + SIG + if clear_both(clear) { 0 } else { H }
}
/// params: version, in the clear (bit 0 responder, bit 1 requester), summary, opaque data, fault
#[no_mangle]
pub extern "C" fn h_rq_kex() {
    install();
    let v = ver(param(0) as u8);
    let (clear, typ) = (param(1) as u8, param(2) as usize);
    let slot = [0, 3, 6, 8, 255][choose(5, "slot") as usize];
    let mutual = choose(4, "mutual authentication") as u8;
    let m: [u8; 8 + 32 + DHE + H + 2 + SIG + H] = sym("response");
    let mut m = m[..kex_len(typ, clear)].to_vec();
    m[1] = 0x64;
    let at = 8 + 32 + DHE + if typ == 0 { 0 } else { H };
    let o = match param(3) {
        0 => Vec::new(),
        1 => selection(v, sym_u8("selected version")),
        _ => {
            let x: [u8; 6] = sym("opaque");
            x[..1 + choose(6, "opaque length") as usize].to_vec()
        }
    };
    m[at] = o.len() as u8;
    m[at + 1] = 0;
    let t = m.split_off(at + 2);
    let m = cat(&[&m, &o, &t]);
    w().rand_concrete = true;
    kex(v, clear, typ, slot, &m, mutual, param(4) == 1);
}
/// Responses of any code and length. params: summary, least length
#[no_mangle]
pub extern "C" fn h_rq_kex_form() {
    install();
    let typ = param(0) as usize;
    let clear = if choose(2, "in the clear") == 1 { 3 } else { 1 };
    let full = kex_len(typ, clear);
    let n = [0, 1, 2, 3, 4, 7, 8, 40, 41, full - H - SIG - 1, full - H, full - 1, full, full + 1, full + 5][choose(15, "length") as usize];
    let m: [u8; 8 + 32 + DHE + H + 2 + SIG + H + 5] = sym("response");
    w().rand_concrete = true;
    kex(ver(2), clear, typ, 3, &m[..n], 3, false);
}

/// One PSK_EXCHANGE with the given response.
fn psk(v: SpdmVersion, context: bool, typ: usize, hint: &[u8], m: &[u8], fails: bool) {
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    begin(&mut ctx.common, v, choose(4, "in the clear") as u8, 0x10 | if context { 0x800 } else { 0x400 }, 0);
    let before = snap(&mut ctx.common);
    answer(&[m]);
    if fails {
        w().fail_at = w().calls + choose(40, "failing call") as usize;
    }
    let mut h = SpdmPskHintStruct::default();
    h.data_size = hint.len() as u16;
    h.data[..hint.len()].copy_from_slice(hint);
    let r = ctx.send_receive_spdm_psk_exchange(types(typ).0, if hint.len() == 0 { None } else { Some(&h) });
    let failed = w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    if r.is_err() {
        check(after.sess[1].id == 0 && after.sess[1].state == 0, "no session is left behind");
    }
    if sent() == 0 {
        check(failed && r.is_err(), "only a failure keeps the request from going out");
        core::mem::forget(ctx);
        return;
    }
    check(sent() == 1, "one request");
    let q = msg(0);
    let ol = list(v);
    check(count(Op::Rand) == 1, "a fresh context");
    check(eq(q, &cat(&[&[v.get_u8(), 0xE6, types(typ).1, 0, 0xFC, 0xFF, hint.len() as u8, 0, H as u8, 0, ol.len() as u8, 0], hint, &nth(Op::Rand, 0).out[..H], &ol])), "PSK_EXCHANGE as asked for");
    let n = m.len();
    let sl = if typ == 0 { 0 } else { H };
    let head = n >= 2 && m[0] == v.get_u8() && m[1] == 0x66;
    let mut form = head && n >= 12 + sl + H;
    let (mut at, mut end) = (0, 0);
    if form {
        let cl = le16(m, 8);
        form = if context { cl > 0 && cl <= 32 } else { cl == 0 };
        let ol = le16(m, 10);
        form = form && cl + ol <= n - 12 - sl - H;
        if form {
            at = 12 + sl + conc(cl);
            end = at + conc(ol);
        }
    }
    let proof = count(Op::HmacV) == 1 && nth(Op::HmacV, 0).ok;
    if let Ok(id) = r {
        cover("accepted");
        check(!failed && form, "the response has all its fields");
        check(proof, "the HMAC has been verified");
        check(id == (le16(m, 4) as u32) << 16 | 0xFFFC, "the session has the id of both halves");
        let s = &ctx.common.session[1];
        check(s.get_session_id() == id && s.get_use_psk(), "the session uses a pre-shared key");
        check(s.get_session_state() == if context { HS } else { EST }, "the session is established at once exactly when there is no context");
        check(s.heartbeat_period == m[2], "the session has the heartbeat period announced");
        check(s.get_mut_auth_requested().is_empty(), "pre-shared keys need no mutual authentication");
        let th1 = cat(&[&A, q, &m[..end]]);
        let (_, rs) = phase_keys(s, v, HS, &Root::Psk(hint), &th1);
        check(finished(Op::HmacV, &m[end..end + H], v, &rs, &th1), "the HMAC under the responder's finished key over the transcript");
        let th2 = cat(&[&th1, &m[end..end + H]]);
        check(th_of(s).map_or(false, |t| eq(&t, &th2)), "the transcript goes on with the whole response");
        if !context {
            phase_keys(s, v, EST, &Root::Psk(hint), &th2);
            cover("established");
        }
        let sel = selection(v, 0);
        let o = &m[at..end];
        if o.len() == sel.len() && eq(&o[..o.len() - 1], &sel[..o.len() - 1]) && (o[o.len() - 1] == 0x10 || o[o.len() - 1] == 0x11) {
            check(s.secure_spdm_version_sel == o[o.len() - 1], "the selected version is used");
            cover("version selected");
        }
    } else {
        check(!(form && !failed && (count(Op::HmacV) == 0 || proof)), "a good answer is accepted");
        cover("refused");
        if count(Op::HmacV) == 1 && !nth(Op::HmacV, 0).ok {
            cover("bad HMAC");
        }
    }
    core::mem::forget(ctx);
}
/// params: version, with context, summary, opaque data, fault
#[no_mangle]
pub extern "C" fn h_rq_psk() {
    install();
    let v = ver(param(0) as u8);
    let (context, typ) = (param(1) == 1, param(2) as usize);
    let cl = if context { [32, 5, 0, 33][choose(4, "context length") as usize] } else { [0, 3][choose(2, "context length") as usize] };
    let hint: [u8; 8] = sym("hint");
    let hint = &hint[..[0, 3, 8][choose(3, "hint length") as usize]];
    let o = match param(3) {
        0 => Vec::new(),
        1 => selection(v, sym_u8("selected version")),
        _ => {
            let x: [u8; 6] = sym("opaque");
            x[..1 + choose(6, "opaque length") as usize].to_vec()
        }
    };
    let m: [u8; 12 + H + 33 + H] = sym("response");
    let sl = if typ == 0 { 0 } else { H };
    let mut m = cat(&[&m[..12 + sl + cl], &o, &m[12 + H + 33..]]);
    m[1] = 0x66;
    m[8] = cl as u8;
    m[9] = 0;
    m[10] = o.len() as u8;
    m[11] = 0;
    w().rand_concrete = true;
    psk(v, context, typ, hint, &m, param(4) == 1);
}
/// Responses of any code and length. param 0: with context
#[no_mangle]
pub extern "C" fn h_rq_psk_form() {
    install();
    let m: [u8; 12 + 8 + H + 4] = sym("response");
    let n = [0, 1, 2, 3, 4, 8, 9, 11, 12, 13, 43, 44, 45, 50, 55, 56][choose(16, "length") as usize];
    w().rand_concrete = true;
    psk(ver(2), param(0) == 1, 0, &[1, 2], &m[..n], false);
}

/// An exchange that succeeds; returns id, transcript so far, DHE value or nothing
fn exchange(ctx: &mut RequesterContext, v: SpdmVersion, use_psk: bool, clear: bool, mutual: u8) -> (u32, Vec<u8>, Vec<u8>, Vec<u8>) {
    let fv = w().free_verdict;
    w().free_verdict = false;
    let (m, ch) = if use_psk {
        (cat(&[&[v.get_u8(), 0x66, 5, 0, 0x44, 0x55, 0, 0, 2, 0, 0, 0, 9, 9], &[0x31; H]]), Vec::new())
    } else {
        let cc = ctx.common.peer_info.peer_cert_chain[3].as_ref().unwrap().as_ref().to_vec();
        (cat(&[&[v.get_u8(), 0x64, 5, 0, 0x44, 0x55, mutual, 2], &[9; 32], &[8; DHE], &[0, 0], &[6; SIG], &[0x31; H][..if clear { 0 } else { H }]]), hash_of(&cc))
    };
    answer(&[&m]);
    let r = if use_psk {
        let mut h = SpdmPskHintStruct::default();
        h.data_size = 2;
        h.data[0] = 7;
        ctx.send_receive_spdm_psk_exchange(types(0).0, Some(&h))
    } else {
        ctx.send_receive_spdm_key_exchange(3, types(0).0)
    };
    check(r.is_ok(), "the exchange succeeds");
    let k = cat(&[&A, &ch, msg(0), &m]);
    let th1 = if clear && !use_psk { k.clone() } else { k[..k.len() - H].to_vec() };
    let own = if use_psk { Vec::new() } else { nth(Op::DheGen, 0).out.clone() };
    w().free_verdict = fv;
    (r.unwrap(), k, th1, own)
}
fn last(op: Op, from: usize) -> Option<&'static Ev> {
    w().log[from..].iter().rev().find(|e| e.op == op)
}

/// FINISH. params: in the clear, mutual authentication, fault
#[no_mangle]
pub extern "C" fn h_rq_finish() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut p = SpdmProvisionInfo::default();
    p.my_cert_chain[2] = Some(chain(0x70, 18));
    p.my_cert_chain[5] = Some(chain(0x80, 26));
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), p);
    let v = ver(2);
    let clear = param(0) == 1;
    let mutual = param(1) == 1;
    begin(&mut ctx.common, v, if clear { 3 } else { choose(3, "one side in the clear") as u8 }, 0x10, 3);
    let (id, k, th1, own) = exchange(&mut ctx, v, false, clear, if mutual { 1 } else { 0 });
    let (rq, rs) = phase_keys(&ctx.common.session[1], v, HS, &Root::Dhe(&own, &[8; DHE]), &th1);
    // the slot asked for by the responder is 2
    let slot = if mutual { [Some(2), Some(5), Some(6), Some(8)][choose(4, "own slot") as usize] } else { [None, Some(2), Some(6)][choose(3, "own slot") as usize] };
    if mutual {
        if let Some(5) = slot {
            ctx.common.runtime_info.set_local_used_cert_chain_slot_id(5);
        }
    }
    let sig = mutual;
    let mx: [u8; 4 + H + 2] = sym("response");
    let n = if param(2) == 1 { 4 + H } else { [4 + H, 4, 4 + H + 2, 4 + H - 1, 3, 2, 1, 0][choose(8, "length") as usize] };
    assume(param(2) == 0 || mx[1] == 0x65);
    let m = &mx[..n];
    let rec = record(id, 0, m);
    if clear {
        answer(&[&[], m]);
    } else {
        w().rx_secured = true;
        answer(&[&[], &rec]);
    }
    let mark = w().log.len();
    let before = snap(&mut ctx.common);
    if param(2) == 1 {
        w().fail_at = w().calls + choose(40, "failing call") as usize;
        w().failed = false;
    }
    let r = ctx.send_receive_spdm_finish(slot, id).is_ok();
    let failed = w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    if sent() == 1 {
        check(!r, "without a request there is no session");
        let wrong = slot.map_or(false, |s| s != 2 && s != 5);
        check(failed || wrong || last(Op::Verify, mark).map_or(false, |e| !e.ok), "only a failure or a missing certificate keeps the request from going out");
        if !wrong {
            check(after.sess[1].id == 0 && after.sess[1].state == 0, "no session is left behind");
        } else {
            check(same_sess(&before.sess[1], &after.sess[1], true), "a wrong parameter has no effect");
        }
        cover("not sent");
        core::mem::forget(ctx);
        return;
    }
    check(sent() == 2, "one request");
    let q: Vec<u8> = if clear {
        msg(1).to_vec()
    } else {
        let e = last(Op::Enc, mark).unwrap();
        e.d[2..].to_vec()
    };
    check(q.len() == 4 + H + if sig { SIG } else { 0 }, "FINISH has its fields");
    check(eq(&q[..4], &[0x12, 0xE5, if sig { 1 } else { 0 }, if sig { slot.unwrap() } else { slot.unwrap_or(0) }]), "FINISH with the slot of the signing certificate");
    let mut t = k.clone();
    let mut at = 4;
    if sig {
        let pc = ctx.common.provision_info.my_cert_chain[slot.unwrap() as usize].as_ref().unwrap().as_ref().to_vec();
        let hp = w().log[mark..].iter().find(|e| e.op == Op::Hash && e.a.len() == pc.len() && eq(&e.a, &pc));
        check(hp.is_some(), "the transcript has the requester's certificate chain");
        t = cat(&[&t, &hp.unwrap().out, &q[..4]]);
        let e = last(Op::Sign, mark);
        check(e.map_or(false, |e| eq(&e.out, &q[4..4 + SIG]) && over(&e.a, &signing("requester-finish signing"), &t)), "the signature covers context and transcript");
        t = cat(&[&t, &q[4..4 + SIG]]);
        at = 4 + SIG;
    } else {
        t = cat(&[&t, &q[..4]]);
        check(last(Op::Sign, mark).is_none(), "nothing is signed without being asked to");
    }
    check(finished(Op::Hmac, &q[at..], v, &rq, &t), "FINISH proves the requester's finished key over the transcript");
    t = cat(&[&t, &q[at..]]);
    let form = n >= if clear { 4 + H } else { 4 } && m[0] == 0x12 && m[1] == 0x65;
    let dec = clear || last(Op::Dec, mark).map_or(false, |e| e.ok);
    let hv = last(Op::HmacV, mark).filter(|e| !eq(&e.c, &[6; SIG]));
    let proof = !clear || hv.map_or(false, |e| e.ok);
    if r {
        cover("accepted");
        check(!failed && form && dec, "the answer is FINISH_RSP with all its fields");
        check(proof, "the HMAC has been verified");
        t = cat(&[&t, &m[..4]]);
        if clear {
            check(finished(Op::HmacV, &m[4..4 + H], v, &rs, &t), "the HMAC under the responder's finished key over the transcript");
            t = cat(&[&t, &m[4..4 + H]]);
        }
        check(after.sess[1].id == id && after.sess[1].state == EST.get_u8(), "the session is established");
        phase_keys(&ctx.common.session[1], v, EST, &Root::Dhe(&own, &[8; DHE]), &t);
    } else {
        check(!(form && dec && !failed && (!clear || hv.map_or(true, |e| e.ok))), "a good answer is accepted");
        check(after.sess[1].id == 0 && after.sess[1].state == 0, "no session is left behind");
        cover("refused");
    }
    core::mem::forget(ctx);
}

/// PSK_FINISH. params: version, fault
#[no_mangle]
pub extern "C" fn h_rq_psk_finish() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(param(0) as u8);
    begin(&mut ctx.common, v, choose(4, "in the clear") as u8, 0x810, 3);
    let (id, k, th1, _) = exchange(&mut ctx, v, true, false, 0);
    let (rq, _) = phase_keys(&ctx.common.session[1], v, HS, &Root::Psk(&[7, 0]), &th1);
    let mx: [u8; 7] = sym("response");
    let n = if param(1) == 1 { 4 } else { choose(8, "length") as usize };
    assume(param(1) == 0 || mx[1] == 0x67);
    let m = &mx[..n];
    let rec = record(id, 0, m);
    w().rx_secured = true;
    answer(&[&[], &rec]);
    let mark = w().log.len();
    let before = snap(&mut ctx.common);
    if param(1) == 1 {
        w().fail_at = w().calls + choose(30, "failing call") as usize;
        w().failed = false;
    }
    let r = ctx.send_receive_spdm_psk_finish(id).is_ok();
    let failed = w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    if sent() == 1 {
        check(!r && failed, "only a failure keeps the request from going out");
        check(after.sess[1].id == 0 && after.sess[1].state == 0, "no session is left behind");
        core::mem::forget(ctx);
        return;
    }
    check(sent() == 2, "one request");
    let q = last(Op::Enc, mark).unwrap().d[2..].to_vec();
    check(q.len() == 4 + H && eq(&q[..4], &[v.get_u8(), 0xE7, 0, 0]), "PSK_FINISH has its fields");
    let mut t = cat(&[&k, &q[..4]]);
    check(finished(Op::Hmac, &q[4..], v, &rq, &t), "PSK_FINISH proves the requester's finished key over the transcript");
    t = cat(&[&t, &q[4..]]);
    let form = n >= 4 && m[0] == v.get_u8() && m[1] == 0x67;
    let dec = last(Op::Dec, mark).map_or(false, |e| e.ok);
    if r {
        cover("accepted");
        check(!failed && form && dec, "the answer is PSK_FINISH_RSP with all its fields");
        check(after.sess[1].id == id && after.sess[1].state == EST.get_u8(), "the session is established");
        phase_keys(&ctx.common.session[1], v, EST, &Root::Psk(&[7, 0]), &cat(&[&t, &m[..4]]));
    } else {
        check(!(form && dec && !failed), "a good answer is accepted");
        check(after.sess[1].id == 0 && after.sess[1].state == 0, "no session is left behind");
        cover("refused");
    }
    core::mem::forget(ctx);
}

/// The whole way to a session. params: pre-shared key, mutual authentication asked for, fault
#[no_mangle]
pub extern "C" fn h_rq_start() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut p = SpdmProvisionInfo::default();
    let own = choose(2, "own certificate") == 1;
    if own {
        p.my_cert_chain_data[2] = Some(chain_data(0x70, 18));
    }
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), p);
    let v = ver(2);
    let use_psk = param(0) == 1;
    let mutual = param(1) as u8;
    let context = choose(2, "context") == 1;
    let clear = choose(2, "in the clear") == 1;
    begin(&mut ctx.common, v, if clear { 3 } else { 0 }, if context { 0x810 } else { 0x410 }, 3);
    let clear = clear && !use_psk;
    let m = if use_psk {
        cat(&[&[0x12, 0x66, 5, 0, 0x44, 0x55, 0, 0, if context { 2 } else { 0 }, 0, 0, 0], if context { &[9, 9] } else { &[] }, &[0x31; H]])
    } else {
        cat(&[&[0x12, 0x64, 5, 0, 0x44, 0x55, mutual, 2], &[9; 32], &[8; DHE], &[0, 0], &[6; SIG], &[0x31; H][..if clear { 0 } else { H }]])
    };
    let id = 0x5544_FFFCu32;
    let mx: [u8; 4 + H] = sym("second response");
    assume(param(2) == 0 || mx[1] == if use_psk { 0x67 } else { 0x65 });
    let m2 = &mx[..if clear { 4 + H } else { 4 }];
    unsafe {
        START = (m, if clear { m2.to_vec() } else { record(id, 0, m2) }, !clear);
    }
    w().rx = Some(start_rx);
    let before = snap(&mut ctx.common);
    if param(2) == 1 {
        w().fail_at = w().calls + choose(80, "failing call") as usize;
        w().failed = false;
    }
    let r = ctx.start_session(use_psk, 3, types(0).0);
    let failed = w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    let two = !use_psk || context;
    let proofs = w().log.iter().all(|e| !matches!(e.op, Op::Verify | Op::HmacV | Op::Dec) || e.ok);
    if let Ok(x) = r {
        check(x == id && after.sess[1].id == id && after.sess[1].state == EST.get_u8(), "the session returned is established");
        check(!failed && proofs, "every proof has been verified");
        check(!two || mx[0] == 0x12 && mx[1] == if use_psk { 0x67 } else { 0x65 }, "the finish is answered");
        check(sent() == if two { 2 } else { 1 }, "exchange and finish");
        check(use_psk || mutual == 0 || own, "mutual authentication takes a certificate");
        cover("established");
    } else {
        check(after.sess[1].id == 0 && after.sess[1].state == 0, "no session is left behind");
        check(failed || !proofs || !use_psk && mutual != 0 && !own || two && !(mx[0] == 0x12 && mx[1] == if use_psk { 0x67 } else { 0x65 }), "a good exchange leads to a session");
        cover("refused");
    }
    core::mem::forget(ctx);
}
static mut START: (Vec<u8>, Vec<u8>, bool) = (Vec::new(), Vec::new(), false);
fn start_rx(i: usize) -> Option<Vec<u8>> {
    unsafe {
        match i {
            0 => Some(START.0.clone()),
            1 => {
                w().rx_secured = START.2;
                Some(START.1.clone())
            }
            _ => None,
        }
    }
}
