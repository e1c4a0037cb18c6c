//! The requester reads digests and certificates.
use crate::env::*;
use crate::gate::*;
use crate::ratt::{quiet, toeq};
use crate::rneg::answer;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_rq_digests", h_rq_digests), ("h_rq_chain", h_rq_chain), ("h_rq_cert_form", h_rq_cert_form), ("h_rq_long", h_rq_long)];
const A: [u8; 7] = [0xAA; 7];
const MAX: usize = 64; // longest chain
const ID: u32 = 0xFFFD_FFFD;
fn begin(c: &mut SpdmContext, v: SpdmVersion) {
    let _ = session_ctx(c, v);
    caps_rsp(c, 0x46c2 | 0x10 | 0x4000);
    let _ = c.append_message_a(&A);
    c.peer_info.peer_cert_chain[3] = Some(chain(0x60, 9));
}
fn hash_of(b: &[u8]) -> Vec<u8> {
    spdmlib::crypto::hash::hash_all(SpdmBaseHashAlgo::TPM_ALG_SHA_256, b).unwrap().as_ref().to_vec()
}
fn request(sess: bool, i: usize) -> Vec<u8> {
    if sess {
        nth(Op::Enc, i).d[2..].to_vec()
    } else {
        msg(i).to_vec()
    }
}
fn wrap(sess: bool, i: usize, m: &[u8]) -> Vec<u8> {
    if sess {
        record(ID, i as u64, m)
    } else {
        m.to_vec()
    }
}

/// GET_DIGESTS. params: version, in a session, environment fails
#[no_mangle]
pub extern "C" fn h_rq_digests() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(param(0) as u8);
    let sess = param(1) == 1;
    w().free_verdict = sess;
    begin(&mut ctx.common, v);
    let old = choose(2, "digests read before") == 1;
    if old {
        let _ = ctx.common.append_message_b(&[0xBB; 5]);
    }
    let b: [u8; 110] = sym("response");
    let n = [0, 1, 3, 4, 35, 36, 40, 68, 99, 100, 110][choose(11, "length") as usize];
    let m = &b[..n];
    if n > 2 {
        // errors of other kinds lead to further requests
        assume(m[1] != 0x7f || m[2] == 1 || m[2] == 7);
    }
    w().rx_secured = sess;
    answer(&[&wrap(sess, 0, m)]);
    if param(2) == 1 {
        w().fail_at = w().calls + choose(6, "failing call") as usize;
        w().failed = false;
    }
    let before = snap(&mut ctx.common);
    let r = ctx.send_receive_spdm_digest(if sess { Some(ID) } else { None }).is_ok();
    let failed = param(2) == 1 && w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    check(same_sess(&before.sess[0], &after.sess[0], !sess), "sessions are not affected");
    check((0..8).all(|i| ctx.common.peer_info.peer_cert_chain[i].is_some() == (i == 3)), "certificates known before stay");
    let k = if sess { count(Op::Enc) } else { sent() };
    check(k == 1 || failed, "one request");
    if k == 0 {
        check(!r, "what cannot be sent fails");
        core::mem::forget(ctx);
        return;
    }
    let q = request(sess, 0);
    check(eq(&q, &[v.get_u8(), 0x81, 0, 0]), "GET_DIGESTS");
    let opened = !sess || count(Op::Dec) == 1 && nth(Op::Dec, 0).ok;
    let mut form = opened && n >= 4 && m[0] == v.get_u8() && m[1] == 1;
    let mut used = 4;
    if form {
        used = 4 + H * conc(m[3].count_ones() as usize);
        form = used <= n;
    }
    if r {
        check(form, "DIGESTS with a digest for each slot announced");
        if sess {
            check(after.m1m2.is_none(), "what is read in a session is not part of the transcript");
        } else {
            // a new round of digests and certificates
            check(toeq(&after.m1m2, &[&A, &q, &m[..used]]), "digests start the transcript of certificates");
        }
        cover("accepted");
    } else {
        check(!form || failed, "good digests are accepted");
        check(after.m1m2.is_none() || failed, "refused digests are not part of the transcript");
        cover("refused");
    }
    core::mem::forget(ctx);
}

/// GET_CERTIFICATE until the chain is complete.
/// params: portions, root provisioned (0 no, 1 yes, 2 of other length), in a session, environment fails
#[no_mangle]
pub extern "C" fn h_rq_chain() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut p = SpdmProvisionInfo::default();
    let root: [u8; 8] = sym("root certificate");
    let own: [u8; 8] = sym("provisioned root certificate");
    if param(1) != 0 {
        let mut d = SpdmCertChainData { data_size: if param(1) == 1 { 8 } else { 7 }, ..Default::default() };
        d.data[..8].copy_from_slice(&own);
        p.peer_root_cert_data = Some(d);
    }
    let sess = param(2) == 1;
    let fault = param(3) == 1;
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), p);
    let v = ver([0, 2][choose(2, "version") as usize]);
    begin(&mut ctx.common, v);
    let slot = [0, 3, 7, 8, 255][choose(5, "slot") as usize];
    let old = choose(2, "digests read before") == 1;
    if old {
        let _ = ctx.common.append_message_b(&[0xBB; 5]);
    }
    let total = 4 + H + 8 + 6;
    let flip: [u8; 4] = sym("deviation");
    let mut data = cat(&[&[total as u8, 0, 0, 0], &hash_of(&root), &root, &[0xC5; 6]]);
    for i in 0..4 {
        data[[0, 1, 4, 4 + H - 1][i]] ^= flip[i];
    }
    let n = param(0) as usize;
    let f: [u8; 5] = sym("deviation of a portion");
    if fault {
        assume(f == [0; 5] && flip == [0; 4]);
    }
    let off = choose(n as u8, "which portion deviates") as usize;
    let mut got = 0;
    let mut cuts = Vec::new();
    let mut ms: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let len = if i + 1 == n { total - got } else { [1, 17, 40][choose(3, "portion") as usize] };
        if got + len > total {
            end();
        }
        let rest = total - got - len;
        let mut m = cat(&[&[v.get_u8(), 2, slot, 0, len as u8, 0, rest as u8, 0], &data[got..got + len]]);
        if i == off {
            m[2] ^= f[0];
            m[4] ^= f[1];
            m[5] ^= f[2];
            m[6] ^= f[3];
            m[7] ^= f[4];
        }
        ms.push(m);
        got += len;
        cuts.push(len);
    }
    let recs: Vec<Vec<u8>> = ms.iter().enumerate().map(|(i, m)| wrap(sess, i, m)).collect();
    let refs: Vec<&[u8]> = recs.iter().map(|m| &m[..]).collect();
    w().rx_secured = sess;
    answer(&refs);
    let before = snap(&mut ctx.common);
    w().free_verdict = true;
    let mark = w().log.len();
    if fault {
        w().fail_at = w().calls + choose(14, "failing call") as usize;
        w().failed = false;
    }
    let r = ctx.send_receive_spdm_certificate(if sess { Some(ID) } else { None }, slot).is_ok();
    let failed = fault && w().failed;
    w().fail_at = usize::MAX;
    w().free_verdict = false;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    check(same_sess(&before.sess[0], &after.sess[0], !sess), "sessions are not affected");
    let known = &ctx.common.peer_info.peer_cert_chain;
    check((0..8).all(|i| i == slot as usize || known[i].is_some() == (i == 3)), "other slots stay");
    if slot != 3 {
        check(known[3].as_ref().map_or(false, |k| eq(k.as_ref(), chain(0x60, 9).as_ref())), "certificates known before stay");
    }
    check(ctx.common.peer_info.peer_cert_chain_temp.is_none() || !r, "nothing half-read is left");
    if slot >= 8 {
        check(!r && sent() == 0, "there are slots 0 to 7");
        cover("no such slot");
        core::mem::forget(ctx);
        return;
    }
    let k = if sess { count(Op::Enc) } else { sent() };
    let one = |op: Op| w().log[mark..].iter().find(|e| e.op == op);
    // what was received, as the requester has to take it
    let mut have: Vec<u8> = Vec::new();
    let mut tx: Vec<u8> = cat(&[&A, if old { &[0xBB; 5] } else { &[] }]);
    let mut whole = false;
    let mut want = 512;
    let mut announced = 0;
    for i in 0..k {
        let q = request(sess, i);
        let at = have.len();
        check(eq(&q, &[v.get_u8(), 0x82, slot, 0, at as u8, 0, want as u8, (want >> 8) as u8]), "the rest of the chain is asked for, in order");
        if i >= n {
            break;
        }
        let m = &ms[i];
        if sess && !w().log.iter().filter(|e| e.op == Op::Dec).nth(i).map_or(false, |e| e.ok) {
            break;
        }
        let (pl, rl) = (le16(m, 4), le16(m, 6));
        let ok = m[2] == slot && pl <= m.len() - 8 && pl <= want && pl > 0 && (i == 0 || at + pl + rl == announced) && at + pl + rl <= MAX;
        if !ok {
            break;
        }
        if at + pl + rl == MAX {
            // longer than this requester may be willing to take
            core::mem::forget(ctx);
            return;
        }
        let pl = conc(pl);
        let rl = conc(rl);
        announced = at + pl + rl;
        have.extend_from_slice(&m[8..8 + pl]);
        tx.extend_from_slice(&q);
        tx.extend_from_slice(&m[..8 + pl]);
        want = rl;
        if rl == 0 {
            whole = true;
            check(i + 1 == k, "after the last portion nothing is asked for");
            break;
        }
    }
    let c = known[slot as usize].as_ref();
    let v1 = one(Op::ChainV).map_or(false, |e| e.ok && eq(&e.a, &have[have.len().min(4 + H)..]));
    let g1 = one(Op::CertGet).map_or(false, |e| e.ok && eq(&e.a, &have[have.len().min(4 + H)..]));
    let trusted = param(1) == 0 || param(1) == 1 && eq(&own, &root);
    let fits = whole && have.len() >= 4 + H + 8 && le16(&have, 0) == have.len() && eq(&have[4..4 + H], &hash_of(&have[4 + H..4 + H + 8]));
    if r {
        check(whole, "the chain is complete");
        check(have.len() > 4 + H && le16(&have, 0) == have.len(), "the chain has the length it says");
        check(v1 && g1, "the chain has been verified");
        check(have.len() >= 4 + H + 8 && fits, "the root hash is that of the root certificate");
        check(trusted, "the root is the provisioned one");
        check(c.map_or(false, |c| eq(c.as_ref(), &have)), "the chain is what the responder sent");
        if sess {
            check(after.m1m2.is_none() == before.m1m2.is_none(), "what is read in a session is not part of the transcript");
        } else {
            check(toeq(&after.m1m2, &[&tx]), "the portions are part of the transcript");
        }
        cover("accepted");
    } else {
        check(c.is_some() == (slot == 3), "a refused chain is not used");
        if slot == 3 {
            check(eq(c.unwrap().as_ref(), chain(0x60, 9).as_ref()), "the chain known before stays");
        }
        check(!(fits && trusted && v1 && g1 && !failed), "a good chain is accepted");
        cover("refused");
    }
    core::mem::forget(ctx);
}

/// CERTIFICATE of any form. params: version, length
#[no_mangle]
pub extern "C" fn h_rq_cert_form() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(param(0) as u8);
    begin(&mut ctx.common, v);
    let b: [u8; 80] = sym("response");
    let n = param(1) as usize;
    let m = &b[..n];
    if n > 2 {
        assume(m[1] != 0x7f || m[2] == 1 || m[2] == 7);
    }
    answer(&[m]);
    let before = snap(&mut ctx.common);
    let r = ctx.send_receive_spdm_certificate(None, 0).is_ok();
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    check(same_sess(&before.sess[0], &after.sess[0], true), "sessions are not affected");
    let c = ctx.common.peer_info.peer_cert_chain[0].as_ref();
    let whole = n > 8 + 4 + H && m[0] == v.get_u8() && m[1] == 2 && m[2] == 0 && le16(m, 6) == 0 && le16(m, 4) <= n - 8 && le16(m, 4) == le16(m, 8);
    check(!r || whole, "a complete chain");
    if r {
        let l = conc(le16(m, 4));
        check(c.map_or(false, |c| eq(c.as_ref(), &m[8..8 + l])), "the chain is what the responder sent");
        check(toeq(&after.m1m2, &[&A, msg(0), &m[..8 + l]]), "the portion is part of the transcript");
        cover("accepted");
    } else {
        check(c.is_none(), "a refused chain is not used");
        let first = n >= 8 && m[0] == v.get_u8() && m[1] == 2 && m[2] == 0 && le16(m, 4) <= n - 8 && le16(m, 4) > 0 && le16(m, 6) > 0 && le16(m, 4) + le16(m, 6) < MAX;
        check(sent() <= 1 || first, "more is asked for only when there is more");
        check(sent() == 1 || sent() == 2, "and only the rest");
        check(n < 2 || m[1] == 2 || after.m1m2.is_none(), "refused messages are not part of the transcript");
        cover("refused");
    }
    core::mem::forget(ctx);
}

/// A chain of several of the largest portions. param 0: in a session
#[no_mangle]
pub extern "C" fn h_rq_long() {
    install();
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = ver(2);
    begin(&mut ctx.common, v);
    let sess = param(0) == 1;
    let total = [511usize, 512, 513, 600, 1024, 1025, 1098, 1099][choose(8, "length") as usize];
    let root = [0x42; 8];
    let mut data = cat(&[&total.to_le_bytes()[..2], &[0, 0], &hash_of(&root), &root]);
    for i in data.len()..total {
        data.push((i as u8) ^ (i >> 8) as u8 ^ 0x35);
    }
    // how much of what is asked for the responder gives
    let give = [512, 300, 511][choose(3, "portion") as usize];
    let mut at = 0;
    let mut ms: Vec<Vec<u8>> = Vec::new();
    let mut qs: Vec<Vec<u8>> = Vec::new();
    while at < total {
        let want = (total - at).min(512);
        let asked = if at == 0 { 512 } else { want };
        qs.push(cat(&[&[0x12, 0x82, 5, 0], &(at as u16).to_le_bytes(), &(asked as u16).to_le_bytes()]));
        let l = want.min(give);
        ms.push(cat(&[&[0x12, 2, 5, 0], &(l as u16).to_le_bytes(), &((total - at - l) as u16).to_le_bytes(), &data[at..at + l]]));
        at += l;
    }
    let recs: Vec<Vec<u8>> = ms.iter().enumerate().map(|(i, m)| wrap(sess, i, m)).collect();
    let refs: Vec<&[u8]> = recs.iter().map(|m| &m[..]).collect();
    w().rx_secured = sess;
    answer(&refs);
    let r = ctx.send_receive_spdm_certificate(if sess { Some(ID) } else { None }, 5).is_ok();
    check(r, "a good chain is accepted");
    check(ctx.common.peer_info.peer_cert_chain[5].as_ref().map_or(false, |c| eq(c.as_ref(), &data)), "the chain is what the responder sent");
    let k = if sess { count(Op::Enc) } else { sent() };
    check(k == qs.len() && (0..k).all(|i| eq(&request(sess, i), &qs[i])), "the rest of the chain is asked for, in order and portions of at most 512");
    cover("accepted");
    core::mem::forget(ctx);
}
