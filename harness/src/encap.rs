//! Mutual authentication: encapsulated requests at both ends.
use crate::env::*;
use crate::gate::*;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_enc_get", h_enc_get),
    ("h_enc_chain", h_enc_chain),
    ("h_enc_form", h_enc_form),
    ("h_enc_again", h_enc_again),
    ("h_enc_restart", h_enc_restart),
    ("h_enc_rq", h_enc_rq),
    ("h_enc_rq_run", h_enc_rq_run),
];
const A: [u8; 7] = [0xAA; 7];
const ID: u32 = 0xFFFC_FFFC;
const MAX: usize = 64; // longest chain of certificates
static mut RX: Vec<u8> = Vec::new();
fn rx1(_: usize) -> Option<Vec<u8>> {
    unsafe { Some(RX.clone()) }
}
fn hash_of(b: &[u8]) -> Vec<u8> {
    spdmlib::crypto::hash::hash_all(SpdmBaseHashAlgo::TPM_ALG_SHA_256, b).unwrap().as_ref().to_vec()
}
/// Another session in either phase, and the one being authenticated.
fn begin(c: &mut SpdmContext, v: SpdmVersion) {
    negotiate(c, v);
    caps_rsp(c, 0x42c2 | 0x1100);
    caps_req(c, 0x42c2 | 0x1100);
    set_state(c, 5);
    let _ = c.append_message_a(&A);
    keyed(&mut c.session[0], 0xFFFD_FFFD, v, &[7; 64]);
    c.session[0].set_session_state(if choose(2, "other session established") == 1 { EST } else { HS });
    keyed(&mut c.session[1], ID, v, &[8; 64]);
    c.session[1].set_session_state(HS);
}
/// Gives the request to the responder in the session being authenticated; the answer.
fn ask(ctx: &mut ResponderContext, seq: u64, m: &[u8]) -> Vec<u8> {
    let n = sent();
    w().rx_secured = true;
    unsafe { RX = record(ID, seq, m) };
    w().rx = Some(rx1);
    let k = dir_keys(&ctx.common.session[1], HS, false).0;
    let _ = ctx.process_message(0, &[]);
    check(sent() == n + 1, "the request gets one answer");
    let e = nth(Op::Enc, count(Op::Enc) - 1);
    check(eq(&e.a, &k), "the answer is protected with the session's key");
    e.d[2..].to_vec()
}
fn quiet(b: &Snap, a: &Snap) {
    check(b.neg == a.neg && b.st == a.st && eq(&b.a, &a.a), "what was negotiated stays");
    check(same_sess(&b.sess[0], &a.sess[0], true), "the other session is not affected");
    check(a.sess[1].id == ID && a.sess[1].state == HS.get_u8(), "the session stays in its handshake");
}
fn no_chain(c: &SpdmContext) -> bool {
    c.peer_info.peer_cert_chain.iter().all(|x| x.is_none())
}
fn is_err(r: &[u8], v: SpdmVersion) -> bool {
    r.len() == 4 && r[0] == v.get_u8() && r[1] == 0x7f && r[2] != 0
}

/// GET_ENCAPSULATED_REQUEST. param 0: version
#[no_mangle]
pub extern "C" fn h_enc_get() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(param(0) as u8);
    begin(&mut ctx.common, v);
    let caps = choose(4, "encapsulation") as u8;
    caps_rsp(&mut ctx.common, 0x42c2 | if caps & 1 != 0 { 0x1100 } else { 0 });
    caps_req(&mut ctx.common, 0x42c2 | if caps & 2 != 0 { 0x1100 } else { 0 });
    let st = choose(7, "state");
    set_state(&mut ctx.common, st);
    let b: [u8; 6] = sym("request");
    let mut m = b[..2 + choose(5, "length") as usize].to_vec();
    m[1] = 0xEA;
    let before = snap(&mut ctx.common);
    let r = ask(&mut ctx, 0, &m);
    quiet(&before, &snap(&mut ctx.common));
    check(no_chain(&ctx.common), "nothing is learnt about the requester");
    if r[1] == 0x7f {
        check(is_err(&r, v), "the refusal is an ERROR");
        check(m[0] != v.get_u8() || v == SpdmVersion::SpdmVersion10 || caps != 3 || st < 5, "a good request is not refused");
        cover("refused");
    } else {
        check(m[0] == v.get_u8() && v != SpdmVersion::SpdmVersion10 && caps == 3, "encapsulation takes version 1.1 and both sides");
        check(eq(&r, &[v.get_u8(), 0x6A, 0, 0, v.get_u8(), 0x81, 0, 0]), "the requester is asked for its digests");
        cover("answered");
    }
    core::mem::forget(ctx);
}

/// Digests and certificates as asked for, in portions.
/// param 0: portions, param 1: root certificate provisioned, param 2: environment fails
#[no_mangle]
pub extern "C" fn h_enc_chain() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut p = SpdmProvisionInfo::default();
    let root: [u8; 8] = sym("root certificate");
    if param(1) != 0 {
        let own: [u8; 8] = sym("provisioned root certificate");
        let mut d = SpdmCertChainData { data_size: if param(1) == 1 { 8 } else { 7 }, ..Default::default() };
        d.data[..8].copy_from_slice(&own);
        p.peer_root_cert_data = Some(d);
    }
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), p);
    let v = ver(2);
    begin(&mut ctx.common, v);
    // the chain: length, root hash, certificates; the first root certificate is what CertGet finds
    let total = 4 + H + 8 + 6;
    let h = hash_of(&root);
    let flip: [u8; 5] = sym("deviation");
    let mut data = cat(&[&[total as u8, 0, 0, 0], &h, &root, &[0xC5; 6]]);
    data[0] ^= flip[0];
    data[1] ^= flip[1];
    data[4] ^= flip[2];
    data[4 + H - 1] ^= flip[3];
    let rid = sym_u8("request id");
    let digests = cat(&[&[0x12, 0xEB, rid, 0, 0x12, 1, 0, 1], &[0x5A; H]]);
    let before = snap(&mut ctx.common);
    let r = ask(&mut ctx, 0, &digests);
    check(eq(&r, &[0x12, 0x6B, 0, 1, rid, 0, 0, 0, 0x12, 0x82, 0, 0, 0, 0, 0, 2]), "after the digests the certificates are asked for from the start");
    w().free_verdict = true;
    let n = param(0) as usize;
    let mut got = 0;
    let mark = w().log.len();
    if param(2) == 1 {
        w().fail_at = w().calls + choose(24, "failing call") as usize;
        w().failed = false;
    }
    for i in 0..n {
        let len = if i + 1 == n { total - got } else { [1, 17, 40][choose(3, "portion") as usize] };
        if got + len > total {
            end();
        }
        let rest = total - got - len;
        // what the requester says about this portion
        let f: [u8; 6] = sym("fields");
        let sent_before = sent();
        let m = cat(&[&[0x12, 0xEB, rid, 0, 0x12, 2, f[0], f[1], len as u8 ^ f[2], f[3], rest as u8 ^ f[4], f[5]], &data[got..got + len]]);
        w().rx_secured = true;
        unsafe { RX = record(ID, i as u64 + 1, &m) };
        w().rx = Some(rx1);
        let _ = ctx.process_message(0, &[]);
        let after = snap(&mut ctx.common);
        quiet(&before, &after);
        if sent() == sent_before {
            check(w().failed || w().log[mark..].iter().rev().find(|e| e.op == Op::Dec).map_or(true, |e| !e.ok), "the response is acknowledged");
            check(no_chain(&ctx.common) || i + 1 == n, "nothing is learnt about the requester");
            core::mem::forget(ctx);
            return;
        }
        let r = nth(Op::Enc, count(Op::Enc) - 1).d[2..].to_vec();
        let (pl, rl) = (len as u8 ^ f[2], rest as u8 ^ f[4]);
        if r[1] == 0x7f {
            check(is_err(&r, v), "the refusal is an ERROR");
            check(no_chain(&ctx.common), "a chain that is refused is not used");
            let bad = w().log[mark..].iter().any(|e| matches!(e.op, Op::ChainV | Op::CertGet) && !e.ok);
            let same = f[0] == 0 && f[2] == 0 && f[3] == 0 && f[4] == 0 && f[5] == 0;
            let last = i + 1 == n;
            let root_ok = param(1) == 0 || param(1) == 1 && provisioned(&ctx.common, &root);
            let wrong = last && ((flip[0] | flip[1] | flip[2] | flip[3]) != 0 || !root_ok);
            check(!(same && !wrong && !bad && !w().failed), "a good portion is not refused");
            cover("refused");
            core::mem::forget(ctx);
            return;
        }
        check(!w().failed || r[3] == 1, "nothing is accepted when something failed");
        check(f[0] == 0 && f[3] == 0, "a portion of the slot asked for");
        check(pl as usize <= len, "the portion is there");
        let used = conc(pl as usize);
        check(got + used + rl as usize + 256 * f[5] as usize <= MAX, "the chain fits");
        if rl == 0 && f[5] == 0 {
            // complete
            let have = got + used;
            check(eq(&r, &[0x12, 0x6B, 0, 2, rid, 0, 0, 0, 0]), "the requester is told the slot");
            let c = ctx.common.peer_info.peer_cert_chain[0].as_ref();
            check(c.is_some(), "the chain is used from now on");
            let c = c.unwrap();
            check(eq(c.as_ref(), &data[..have]), "the chain is what the requester sent");
            check(ctx.common.runtime_info.get_peer_used_cert_chain_slot_id() == 0, "the chain's slot is used from now on");
            check(le16(&data, 0) == have && have > 4 + H, "the chain has the length it says");
            let ev = w().log[mark..].iter().find(|e| e.op == Op::ChainV);
            check(ev.map_or(false, |e| e.ok && eq(&e.a, &data[4 + H..have])), "the chain has been verified");
            let g = w().log[mark..].iter().rev().find(|e| e.op == Op::CertGet);
            check(g.map_or(false, |e| e.ok && eq(&e.a, &data[4 + H..have])), "its root has been looked up");
            check(eq(&data[4..4 + H], &h), "the root hash is that of the root certificate");
            check(param(1) != 2 && (param(1) == 0 || provisioned(&ctx.common, &root)), "the root is the provisioned one");
            check(ctx.common.peer_info.peer_cert_chain[1..].iter().all(|x| x.is_none()), "other slots are not affected");
            cover("authenticated");
            core::mem::forget(ctx);
            return;
        }
        check(no_chain(&ctx.common), "a chain is used only when it is complete");
        got += used;
        check(eq(&r, &[0x12, 0x6B, 0, 1, rid, 0, 0, 0, 0x12, 0x82, 0, 0, got as u8, 0, 0, 2]), "the next portion is asked for");
        cover("next portion");
        if used != len {
            core::mem::forget(ctx);
            return;
        }
        check(i + 1 < n || f[4] != 0, "after the last portion nothing is asked for");
        // from here on only what the requester announced
        assume(f[4] == 0);
    }
    core::mem::forget(ctx);
}
fn provisioned(c: &SpdmContext, root: &[u8]) -> bool {
    c.provision_info.peer_root_cert_data.as_ref().map_or(true, |d| d.data_size as usize == root.len() && eq(&d.data[..root.len()], root))
}

/// Deliveries of any form. param 0: length, param 1: earlier portion
#[no_mangle]
pub extern "C" fn h_enc_form() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(1 + choose(2, "version") as u8);
    begin(&mut ctx.common, v);
    let caps = choose(2, "encapsulation") == 1;
    if !caps {
        caps_req(&mut ctx.common, 0x42c2);
    }
    let st = 4 + choose(3, "state");
    set_state(&mut ctx.common, st);
    let some = param(1) == 1;
    if some {
        ctx.common.peer_info.peer_cert_chain_temp = Some(chain(0x30, 6));
        ctx.common.peer_info.peer_cert_chain_temp.as_mut().unwrap().data_size = 10;
        ctx.common.encap_context.encap_cert_size = 40;
    }
    let b: [u8; 64] = sym("request");
    let n = param(0) as usize;
    let mut m = b[..n].to_vec();
    m[1] = 0xEB;
    let before = snap(&mut ctx.common);
    let r = ask(&mut ctx, 0, &m);
    quiet(&before, &snap(&mut ctx.common));
    check(no_chain(&ctx.common), "nothing is learnt about the requester from a part of a chain");
    if r[1] == 0x7f {
        check(is_err(&r, v), "the refusal is an ERROR");
        check(m[0] != v.get_u8() || n < 8 || !caps || st < 5 || m[4] != v.get_u8() || m[5] != 1 || m[7] != 1 || n < 8 + H, "good digests are not refused");
        cover("refused");
    } else {
        check(caps && n >= 8 && m[0] == v.get_u8() && m[4] == v.get_u8() && (m[5] == 1 || m[5] == 2), "only digests and certificates are taken");
        check(r[0] == v.get_u8() && r[1] == 0x6B && r[2] == 0 && r[3] == 1, "ENCAPSULATED_RESPONSE_ACK");
        check(m[5] == 1 || some && m[6] == 0 && le16(&m, 8) <= n - 12 && 10 + le16(&m, 8) + le16(&m, 10) == 40, "a portion that fits to what was there before");
        let o = r.len() - 8;
        check(o == (if v == SpdmVersion::SpdmVersion12 { 8 } else { 4 }) && eq(&r[o..o + 4], &[v.get_u8(), 0x82, 0, 0]) && le16(&r, o + 4) == if !some { 0 } else { 10 + if m[5] == 2 { le16(&m, 8) } else { 0 } }, "the next portion is asked for");
        cover(if m[5] == 1 { "digests" } else { "certificate" });
    }
    core::mem::forget(ctx);
}

/// A chain that is refused, and then a good one.
#[no_mangle]
pub extern "C" fn h_enc_again() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(2);
    begin(&mut ctx.common, v);
    let old = choose(2, "a chain is known") == 1;
    if old {
        ctx.common.peer_info.peer_cert_chain[0] = Some(chain(0x11, 9));
    }
    let root = [0x42u8; 8];
    let h = hash_of(&root);
    let mk = |fill: u8, n: usize| cat(&[&[(4 + H + 8 + n) as u8, 0, 0, 0], &h, &root, &[fill; 16][..n]]);
    let digests = cat(&[&[0x12, 0xEB, 0, 0, 0x12, 1, 0, 1], &[0x5A; H]]);
    let cert = |p: &[u8], rest: usize| cat(&[&[0x12, 0xEB, 0, 0, 0x12, 2, 0, 0, p.len() as u8, 0, rest as u8, 0], p]);
    let first = mk(0xC5, 6);
    let second = mk(0xD6, 9);
    let r = ask(&mut ctx, 0, &digests);
    check(eq(&r[8..], &[0x12, 0x82, 0, 0, 0, 0, 0, 2]), "the certificates are asked for from the start");
    let cut = [20, first.len()][choose(2, "first try") as usize];
    w().free_verdict = true;
    let mark = w().log.len();
    let mut bad = first.clone();
    bad[5] ^= sym_u8("root hash deviation");
    w().rx_secured = true;
    unsafe { RX = record(ID, 1, &cert(&bad[..cut], bad.len() - cut)) };
    let _ = ctx.process_message(0, &[]);
    w().free_verdict = false;
    let ok = |op: Op| w().log[mark..].iter().find(|e| e.op == op).map_or(true, |e| e.ok);
    if !ok(Op::Dec) {
        core::mem::forget(ctx);
        return;
    }
    let good = cut == first.len() && bad[5] == first[5] && ok(Op::ChainV) && ok(Op::CertGet);
    {
        let c = ctx.common.peer_info.peer_cert_chain[0].as_ref();
        check(c.map_or(!good && !old, |c| eq(c.as_ref(), if good { &first } else { chain(0x11, 9).as_ref().to_vec().leak() })), "only a chain that was verified replaces the one there");
    }
    // and again from the digests
    let r = ask(&mut ctx, 2, &digests);
    check(r[1] == 0x6B, "digests start it again");
    let at = le16(&r, 12);
    check(at == if cut == 20 { 20 } else { 0 } || at == 0, "portions go on or start again");
    let r = ask(&mut ctx, 3, &cert(&second[at..], 0));
    let c = ctx.common.peer_info.peer_cert_chain[0].as_ref().map(|c| c.as_ref().to_vec());
    if at == 0 {
        check(r[1] == 0x6B && c.map_or(false, |c| eq(&c, &second)), "a good chain is accepted after a refused one");
        cover("accepted afterwards");
    } else {
        check(r[1] == 0x7f, "portions of different chains do not go together");
        cover("mixed");
    }
    core::mem::forget(ctx);
}

/// A chain that is left unfinished, and then mutual authentication from its start.
#[no_mangle]
pub extern "C" fn h_enc_restart() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(1 + choose(2, "version"));
    begin(&mut ctx.common, v);
    let root = [0x42u8; 8];
    let h = hash_of(&root);
    let mk = |fill: u8, n: usize| cat(&[&[(4 + H + 8 + n) as u8, 0, 0, 0], &h, &root, &[fill; 16][..n]]);
    let vb = v.get_u8();
    let h1 = if v == ver(1) { 4 } else { 8 };
    let digests = cat(&[&[vb, 0xEB, 0, 0, vb, 1, 0, 1], &[0x5A; H]]);
    let cert = |p: &[u8], rest: usize| cat(&[&[vb, 0xEB, 0, 0, vb, 2, 0, 0, p.len() as u8, 0, rest as u8, 0], p]);
    let get = [vb, 0xEA, 0, 0];
    let (first, second) = (mk(0xC5, 6), mk(0xD6, choose(2, "length") as usize * 3 + 6));
    let mut seq = 0;
    let asked = cat(&[&[vb, 0x6A, 0, 0], &[vb, 0x81, 0, 0]]);
    check(eq(&ask(&mut ctx, 0, &get), &asked), "the requester is asked for its digests");
    let r = ask(&mut ctx, 1, &digests);
    check(eq(&r[h1..], &[vb, 0x82, 0, 0, 0, 0, 0, 2]), "the certificates are asked for from the start");
    seq += 2;
    // some portions, the last of them perhaps refused
    let n = choose(3, "portions") as usize;
    let mut at = 0;
    for i in 0..n {
        let len = [1, 20][choose(2, "portion") as usize];
        let refused = i + 1 == n && choose(2, "announces something else") == 1;
        let rest = sym_u8("rest");
        assume((rest as usize == first.len() - at - len) != refused);
        let mut m = cert(&first[at..at + len], 0);
        m[10] = rest;
        let r = ask(&mut ctx, seq, &m);
        seq += 1;
        if refused && at > 0 {
            check(r[1] == 0x7f, "portions have to fit what was announced");
        }
        if r[1] == 0x7f || refused {
            break;
        }
        at += len;
    }
    check(no_chain(&ctx.common), "a chain is used only when it is complete");
    // and again from the start
    check(eq(&ask(&mut ctx, seq, &get), &asked), "the requester is asked for its digests again");
    let r = ask(&mut ctx, seq + 1, &digests);
    check(eq(&r[h1..], &[vb, 0x82, 0, 0, 0, 0, 0, 2]), "and then for the certificates from the start");
    let cut = [second.len(), 20][choose(2, "in portions") as usize];
    let mut r = ask(&mut ctx, seq + 2, &cert(&second[..cut], second.len() - cut));
    if cut < second.len() {
        check(eq(&r[h1..], &[vb, 0x82, 0, 0, cut as u8, 0, 0, 2]), "and for the rest");
        r = ask(&mut ctx, seq + 3, &cert(&second[cut..], 0));
    }
    let c = ctx.common.peer_info.peer_cert_chain[0].as_ref();
    check(eq(&r, &[vb, 0x6B, 0, 2, 0, 0, 0, 0, 0][..h1 + 1]) && c.map_or(false, |c| eq(c.as_ref(), &second)), "a good chain is accepted then");
    cover("accepted");
    core::mem::forget(ctx);
}

/// The requester's answer to an encapsulated request, or nothing where it may refuse in any way.
fn reply(c: &SpdmContext, v: SpdmVersion, q: &[u8], cert: bool) -> Option<Vec<u8>> {
    if q.len() < 4 || q[0] != v.get_u8() || !cert {
        return None;
    }
    if q[1] == 0x81 {
        let mut mask = 0u8;
        let mut d = Vec::new();
        for i in 0..8 {
            if let Some(x) = c.provision_info.my_cert_chain[i].as_ref() {
                mask |= 1 << i;
                d.extend_from_slice(&hash_of(x.as_ref()));
            }
        }
        return Some(cat(&[&[v.get_u8(), 1, 0, mask], &d]));
    }
    if q[1] == 0x82 && q.len() >= 8 && q[2] == 0 {
        let x = c.provision_info.my_cert_chain[0].as_ref()?.as_ref();
        let (o, l) = (le16(q, 4), le16(q, 6));
        if o > x.len() {
            return None;
        }
        let o = conc(o);
        let l = conc(if l > x.len() - o { x.len() - o } else { l });
        let rest = x.len() - o - l;
        return Some(cat(&[&[v.get_u8(), 2, 0, 0, l as u8, 0, rest as u8, 0], &x[o..o + l]]));
    }
    None
}
static mut MSGS: Vec<Vec<u8>> = Vec::new();
fn rxs(i: usize) -> Option<Vec<u8>> {
    unsafe { MSGS.get(i).map(|m| record(ID, i as u64, m)) }
}
fn prov(mask: usize) -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    for i in 0..8 {
        if mask >> i & 1 == 1 {
            p.my_cert_chain[i] = Some(chain(0x10 + 0x11 * i as u8, 4 + i));
        }
    }
    p
}
/// The requester authenticates itself; the responder's messages are arbitrary.
/// params: kind asked for, version, length of the arbitrary message
#[no_mangle]
pub extern "C" fn h_enc_rq() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), prov([1, 13, 4, 0][choose(4, "own certificates") as usize]));
    let v = ver(param(1) as u8);
    begin(&mut ctx.common, v);
    let caps = choose(3, "capabilities");
    if caps == 1 {
        caps_req(&mut ctx.common, 0x42c0 | 0x1100);
    } else if caps == 2 {
        caps_rsp(&mut ctx.common, 0x42c2 | 0x100);
    }
    let cert = caps != 1;
    let kind = param(0) as u8;
    ctx.common.session[1].set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::from_bits(kind).unwrap());
    ctx.common.runtime_info.set_local_used_cert_chain_slot_id(3);
    let b: [u8; 20] = sym("message");
    let m = &b[..param(2) as usize];
    let n = m.len();
    // the acknowledgement's header
    let hl = if v == SpdmVersion::SpdmVersion12 { 8 } else { 4 };
    let ack = |t: u8| alloc::vec![v.get_u8(), 0x6B, 9, t, 0, 0, 0, 0][..hl].to_vec();
    unsafe { MSGS = alloc::vec![m.to_vec(), ack(0)] };
    w().rx_secured = true;
    w().rx = Some(rxs);
    let before = snap(&mut ctx.common);
    let r = ctx.session_based_mutual_authenticate(ID).is_ok();
    let after = snap(&mut ctx.common);
    check(b.len() == 20 && before.neg == after.neg && before.st == after.st && eq(&before.a, &after.a), "what was negotiated stays");
    check(same_sess(&before.sess[0], &after.sess[0], true), "the other session is not affected");
    check(after.sess[1].id == ID && after.sess[1].state == before.sess[1].state, "the session stays in its handshake");
    let out: Vec<Vec<u8>> = w().log.iter().filter(|e| e.op == Op::Enc).map(|e| e.d[2..].to_vec()).collect();
    let slot = ctx.common.runtime_info.get_local_used_cert_chain_slot_id();
    if kind < 2 {
        check(r && out.len() == 0 && slot == 3, "nothing is exchanged unless asked for");
        core::mem::forget(ctx);
        return;
    }
    if caps == 2 || v == SpdmVersion::SpdmVersion10 {
        check(!r && out.len() == 0, "encapsulation takes both sides");
        cover("not able");
        core::mem::forget(ctx);
        return;
    }
    check(out.len() >= 1, "the exchange begins");
    let deliver = |o: &[u8], id: u8, q: &[u8]| match reply(&ctx.common, v, q, cert) {
        Some(x) => check(eq(o, &cat(&[&[v.get_u8(), 0xEB, id, 0], &x])), "the answer is the one asked for, with the provisioned certificates"),
        None => check(o.len() == 8 && eq(&o[..4], &[v.get_u8(), 0xEB, id, 0]) && is_err(&o[4..], v), "every other request is answered with an ERROR"),
    };
    // what is done with the first, arbitrary message
    if kind == 4 {
        deliver(&out[0], 0, &[v.get_u8(), 0x81, 0, 0]);
        let head = n >= hl && m[0] == v.get_u8() && m[1] == 0x6B;
        if !head {
            check(!r && out.len() == 1, "only an acknowledgement goes on");
            cover("refused");
        } else if m[3] == 0 {
            check(r == (n == hl) && out.len() == 1 && slot == 3, "an acknowledgement without a request ends the exchange");
            cover("ended");
        } else if m[3] == 2 {
            check(r == (n == hl + 1 && m[hl] < 8) && out.len() == 1, "a slot number ends the exchange");
            check(!r || slot == m[hl], "the slot is used for the signature");
            check(r || slot == 3, "a slot there is not is not used");
            cover("slot");
        } else if m[3] == 1 {
            if out.len() == 2 {
                deliver(&out[1], m[2], &m[hl..]);
                check(r, "the exchange goes on until the responder ends it");
                cover("delivered");
            } else {
                check(!r && reply(&ctx.common, v, &m[hl..], cert).is_none(), "a good request is answered");
            }
        } else {
            check(!r && out.len() == 1, "an unknown acknowledgement is refused");
            cover("refused");
        }
    } else {
        check(eq(&out[0], &[v.get_u8(), 0xEA, 0, 0]), "the requester asks for a request");
        let head = n >= 4 && m[0] == v.get_u8() && m[1] == 0x6A;
        if !head {
            check(!r && out.len() == 1, "only an encapsulated request goes on");
            cover("refused");
        } else if out.len() == 2 {
            deliver(&out[1], m[2], &m[4..]);
            check(r, "the exchange goes on until the responder ends it");
            cover("delivered");
        } else {
            check(!r && reply(&ctx.common, v, &m[4..], cert).is_none(), "a good request is answered");
        }
    }
    core::mem::forget(ctx);
}

/// The requester hands out its chain in the portions asked for; any single failure stops it. param 0: fault
#[no_mangle]
pub extern "C" fn h_enc_rq_run() {
    install();
    w().free_verdict = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), prov(9));
    let v = ver(2);
    begin(&mut ctx.common, v);
    let kind = [2, 4][choose(2, "kind") as usize];
    ctx.common.session[1].set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::from_bits(kind).unwrap());
    let (rid, slot) = (sym_u8("request id"), sym_u8("slot"));
    let whole = 4 + H + 4;
    let cut = [1, 20][choose(2, "portion") as usize];
    let get = |o: usize, l: usize| alloc::vec![0x12, 0x82, 0, 0, o as u8, 0, l as u8, 0];
    let mut ms = alloc::vec![cat(&[&[0x12, 0x6B, rid, 1, 0, 0, 0, 0], &get(0, cut)]), cat(&[&[0x12, 0x6B, rid, 1, 0, 0, 0, 0], &get(cut, 255)]), cat(&[&[0x12, 0x6B, rid, 2, 0, 0, 0, 0, slot]])];
    if kind == 2 {
        ms.insert(0, cat(&[&[0x12, 0x6A, rid, 0], &[0x12, 0x81, 0, 0]]));
    }
    unsafe { MSGS = ms };
    w().rx_secured = true;
    w().rx = Some(rxs);
    let x = ctx.common.provision_info.my_cert_chain[0].as_ref().unwrap().as_ref().to_vec();
    if param(0) == 1 {
        w().fail_at = w().calls + choose(24, "failing call") as usize;
        w().failed = false;
    }
    let r = ctx.session_based_mutual_authenticate(ID).is_ok();
    w().fail_at = usize::MAX;
    let bad = w().failed || w().log.iter().any(|e| e.op == Op::Dec && !e.ok);
    let out: Vec<Vec<u8>> = w().log.iter().filter(|e| e.op == Op::Enc && e.ok).map(|e| e.d[2..].to_vec()).collect();
    if !bad {
        let k = if kind == 2 { 1 } else { 0 };
        check(out.len() == 3 + k, "every request is answered");
        check(eq(&out[k + 1][4..], &cat(&[&[0x12, 2, 0, 0, cut as u8, 0, (whole - cut) as u8, 0], &x[..cut]])), "the first portion");
        check(eq(&out[k + 2][4..], &cat(&[&[0x12, 2, 0, 0, (whole - cut) as u8, 0, 0, 0], &x[cut..]])), "the rest");
        check(r == (slot < 8), "the exchange ends with a slot there is");
        check(!r || ctx.common.runtime_info.get_local_used_cert_chain_slot_id() == slot, "the slot is used for the signature");
        cover("done");
    } else {
        let asked = [&[0x12, 0x81, 0, 0][..], &get(0, cut), &get(cut, 255)];
        for o in out.iter() {
            let own = asked.iter().any(|q| o.len() > 4 && eq(&o[4..], &reply(&ctx.common, v, q, true).unwrap()));
            check(eq(o, &[0x12, 0xEA, 0, 0]) || o[1] == 0xEB && (own || is_err(&o[4..], v)), "what is handed out is what was asked for");
        }
        check(!r || w().failed, "a record that does not decrypt stops the exchange");
        cover("failed");
    }
    core::mem::forget(ctx);
}
