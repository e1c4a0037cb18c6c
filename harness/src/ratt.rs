//! The requester asks the responder to prove who it is and what it runs: CHALLENGE, GET_MEASUREMENTS.
use crate::env::*;
use crate::gate::*;
use crate::kex::*;
use crate::rneg::answer;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::*;
use spdmlib::crypto;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_rq_chal", h_rq_chal), ("h_rq_chal_form", h_rq_chal_form), ("h_rq_meas", h_rq_meas), ("h_rq_meas_rec", h_rq_meas_rec), ("h_rq_meas_form", h_rq_meas_form), ("h_rq_meas_run", h_rq_meas_run)];
const A: [u8; 7] = [0xAA; 7];
pub fn toeq(a: &Option<Vec<u8>>, b: &[&[u8]]) -> bool {
    a.as_ref().map_or(false, |a| eq(a, &cat(b)))
}
/// Two established sessions, chains of slots 0 and 3 (and 6 when asked for) known, the last exchange of digests and
/// certificates in the transcript.
pub fn begin<'a>(ctx: &mut RequesterContext, v: SpdmVersion) -> [Option<SpdmCertChainBuffer>; 8] {
    let c = &mut ctx.common;
    let _ = session_ctx(c, v);
    caps_rsp(c, 0x46c2 | 0x10 | 0x4000);
    let _ = c.append_message_a(&A);
    let mut known: [Option<SpdmCertChainBuffer>; 8] = Default::default();
    known[0] = Some(chain(0x20, 16));
    known[3] = Some(chain(0x60, 21));
    for i in 0..8 {
        c.peer_info.peer_cert_chain[i] = known[i].clone();
    }
    known
}
fn hash_of(b: &[u8]) -> Vec<u8> {
    crypto::hash::hash_all(SpdmBaseHashAlgo::TPM_ALG_SHA_256, b).unwrap().as_ref().to_vec()
}
pub fn quiet(b: &Snap, a: &Snap) {
    check(b.neg == a.neg && b.st == a.st && eq(&b.a, &a.a), "what was negotiated stays");
    check(same_sess(&b.sess[1], &a.sess[1], true), "the other session is not affected");
}
fn sum_type(i: usize) -> (SpdmMeasurementSummaryHashType, u8) {
    match i {
        0 => (SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone, 0),
        1 => (SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb, 1),
        _ => (SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll, 0xff),
    }
}

/// One CHALLENGE with the given response.
fn chal(v: SpdmVersion, sum: usize, slot: u8, m: &[u8], fails: bool) {
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let known = begin(&mut ctx, v);
    let b: &[u8] = if choose(2, "certificates read") == 1 { &[0xBB; 5] } else { &[] };
    if b.len() > 0 {
        let _ = ctx.common.append_message_b(b);
    }
    let kh = known.get(slot as usize).and_then(|k| k.as_ref()).map(|k| hash_of(k.as_ref()));
    let before = snap(&mut ctx.common);
    answer(&[m]);
    let (st, sb) = sum_type(sum);
    if fails {
        w().fail_at = w().calls + choose(9, "failing call") as usize;
    }
    let r = ctx.send_receive_spdm_challenge(slot, st).is_ok();
    let failed = w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    check(same_sess(&before.sess[0], &after.sess[0], true), "sessions are not affected");
    if slot >= 8 {
        check(!r && sent() == 0, "there are slots 0 to 7");
        cover("no such slot");
        core::mem::forget(ctx);
        return;
    }
    if failed && sent() == 0 {
        check(!r, "without a nonce there is no challenge");
        core::mem::forget(ctx);
        return;
    }
    check(sent() == 1, "one request");
    let q = msg(0);
    check(q.len() == 36 && eq(&q[..4], &[v.get_u8(), 0x83, slot, sb]), "CHALLENGE with the slot and the summary asked for");
    check(count(Op::Rand) == 1 && eq(&q[4..], &nth(Op::Rand, 0).out), "the nonce is a fresh random number");
    let n = m.len();
    let sl = if sum == 0 { 0 } else { H };
    let fix = 4 + H + 32 + sl + 2;
    let head = n >= 4 && m[0] == v.get_u8() && m[1] == 3;
    let mut form = head && n >= fix + SIG;
    let mut end = 0;
    if form {
        let ol = le16(m, fix - 2);
        form = ol <= n - fix - SIG;
        if form {
            end = fix + conc(ol);
        }
    }
    let cert = known[slot as usize].as_ref();
    let proof = count(Op::Verify) == 1 && nth(Op::Verify, 0).ok;
    if r {
        cover("accepted");
        check(form, "CHALLENGE_AUTH has all its fields");
        check(m[2] & 15 == slot, "the answer is for the slot asked for");
        check(cert.is_some(), "the certificates of the slot are known");
        check(eq(&m[4..4 + H], kh.as_ref().unwrap()), "the answer is about the certificates the requester has");
        check(proof, "the signature has been verified");
        let e = nth(Op::Verify, 0);
        check(eq(&e.a, &cert.unwrap().as_ref()[4 + H..]), "with the certificates of the slot");
        check(eq(&e.c, &m[end..end + SIG]), "the signature of the answer");
        check(e.algo == SpdmBaseHashAlgo::TPM_ALG_SHA_256.bits() && e.algo2 == SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256.bits(), "with the negotiated algorithms");
        check(over(&e.b, &signing("responder-challenge_auth signing"), &cat(&[&A, b, q, &m[..end]])), "over negotiation, certificates, request and response");
        check(after.m1m2.is_none(), "the next exchange starts a new transcript");
    } else {
        let good = form && v == SpdmVersion::SpdmVersion12 && m[2] & 0x7f == slot && cert.is_some() && eq(&m[4..4 + H], kh.as_ref().unwrap()) && (count(Op::Verify) == 0 || proof) && !failed;
        check(!good, "a good answer is accepted");
        cover("refused");
        if count(Op::Verify) > 0 {
            check(after.m1m2.is_none(), "a refused proof is not part of the transcript");
            cover("bad signature");
        }
    }
    core::mem::forget(ctx);
}
/// param 0: version, param 1: summary, param 2: environment fails
#[no_mangle]
pub extern "C" fn h_rq_chal() {
    install();
    let v = ver(param(0) as u8);
    let sum = param(1) as usize;
    let sl = if sum == 0 { 0 } else { H };
    let full = 4 + H + 32 + sl + 2 + SIG;
    let m: [u8; 4 + H + 32 + H + 2 + SIG + 3] = sym("response");
    let n = full + [0, 3][choose(2, "length") as usize];
    assume(n < 4 || m[1] == 3);
    w().rand_concrete = true;
    let slot = [0, 3, 6, 8, 255][choose(5, "slot") as usize];
    chal(v, sum, slot, &m[..n], param(2) == 1);
}
/// Responses of any code and length. param 0: version, param 1: least length
#[no_mangle]
pub extern "C" fn h_rq_chal_form() {
    install();
    w().rand_concrete = true;
    let v = ver(param(0) as u8);
    let m: [u8; 4 + H + 32 + H + 2 + SIG] = sym("response");
    let n = param(1) as usize + choose(20, "length") as usize;
    chal(v, choose(3, "summary") as usize, 3, &m[..n.min(m.len())], false);
}

/// DSP0274 measurement record: this many blocks, each one right, in order, nothing left.
fn record_ok(nb: u8, r: &[u8], mh: usize) -> bool {
    let mut at = 0;
    let mut last = 0u8;
    let mut i = 0;
    while i < nb as usize {
        if r.len() < at + 7 {
            return false;
        }
        let b = &r[at..];
        let (sz, vs) = (le16(b, 2), le16(b, 5));
        if (b[0] <= last) | (b[1] & 1 != 1) | (sz > 3 + 32) | (vs > 32) | (sz != vs + 3) {
            return false;
        }
        let raw = b[4] & 0x80 != 0;
        let ty = b[4] & 0x7f;
        if !raw && ((ty >= 5) & (ty <= 7) | (mh == 0) | (vs != mh)) {
            return false;
        }
        if vs > b.len() - 7 {
            return false;
        }
        last = b[0];
        at += 7 + conc(vs);
        i += 1;
    }
    at == r.len()
}
/// What the requester keeps of measurements already read.
fn l_of(s: &Snap, sess: bool) -> Option<Vec<u8>> {
    if sess { s.sess[0].l1l2.clone() } else { s.l1l2.clone() }
}
/// One GET_MEASUREMENTS with the given response (`m`, in a record when `sess`).
fn meas(v: SpdmVersion, sess: bool, attr: u8, op: u8, slot: u8, mh: usize, m: &[u8], fails: bool) {
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let known = begin(&mut ctx, v);
    let mhs = match mh {
        32 => SpdmMeasurementHashAlgo::TPM_ALG_SHA_256,
        16 => SpdmMeasurementHashAlgo::RAW_BIT_STREAM,
        _ => SpdmMeasurementHashAlgo::empty(),
    };
    ctx.common.negotiate_info.measurement_hash_sel = mhs;
    let mh = if mh == 16 { 0 } else { mh };
    let hist = choose(4, "measurements read");
    if hist & 1 == 1 {
        let _ = ctx.common.append_message_m(None, &[0xD1; 5]);
    }
    if hist & 2 == 2 {
        let _ = ctx.common.append_message_m(Some(0xFFFD_FFFD), &[0xD2; 5]);
    }
    let before = snap(&mut ctx.common);
    let signed = attr & 1 == 1;
    let rec0 = SpdmMeasurementRecordStructure::default();
    let mut rec = rec0.clone();
    let mut total = 0xA7;
    if sess {
        w().rx_secured = true;
        answer(&[&record(0xFFFD_FFFD, 0, m)]);
    } else {
        answer(&[m]);
    }
    if fails {
        w().fail_at = w().calls + choose(9, "failing call") as usize;
    }
    let opv = match op {
        0 => SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber,
        0xff => SpdmMeasurementOperation::SpdmMeasurementRequestAll,
        x => SpdmMeasurementOperation::Unknown(x),
    };
    let a = SpdmMeasurementAttributes::from_bits(attr).unwrap();
    let r = ctx.send_receive_spdm_measurement(if sess { Some(0xFFFD_FFFD) } else { None }, slot, a, opv, &mut total, &mut rec).is_ok();
    let failed = w().failed;
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    quiet(&before, &after);
    let (lb, la) = (l_of(&before, sess), l_of(&after, sess));
    check(after.sess[0].id == 0xFFFD_FFFD || sess, "sessions are not affected");
    let (ob, oa) = (l_of(&before, !sess), l_of(&after, !sess));
    check(oa.is_none() && ob.is_none() || ob.as_ref().map_or(false, |o| toeq(&oa, &[o])) || (!sess && oa.is_none()) || (sess && oa.is_none()), "measurements outside and in sessions are separate");
    if slot >= 8 {
        check(!r && sent() == 0, "there are slots 0 to 7");
        cover("no such slot");
        core::mem::forget(ctx);
        return;
    }
    if failed && sent() == 0 {
        check(!r, "what cannot be sent fails");
        core::mem::forget(ctx);
        return;
    }
    check(sent() == 1, "one request");
    let q: &[u8] = if sess { &nth(Op::Enc, count(Op::Enc) - 1).d[2..] } else { msg(0) };
    let ql = 4 + if !signed { 0 } else if v == SpdmVersion::SpdmVersion10 { 32 } else { 33 };
    check(q.len() == ql && eq(&q[..4], &[v.get_u8(), 0xE0, attr, op]), "GET_MEASUREMENTS with the attributes and the operation asked for");
    if signed {
        check(eq(&q[4..36], &nth(Op::Rand, count(Op::Rand) - 1).out), "the nonce is a fresh random number");
        check(ql == 36 || q[36] == slot, "the slot asked for");
    }
    let n = m.len();
    let opened = !sess || count(Op::Dec) == 1 && nth(Op::Dec, 0).ok;
    let mut form = opened && n >= 8 && m[0] == v.get_u8() && m[1] == 0x60;
    let mut end = 0;
    let mut rl = 0;
    let sg = if signed { SIG } else { 0 };
    if form {
        let l = le16(m, 5) | (m[7] as usize) << 16;
        form = l <= 48 && 8 + l + 34 + sg <= n;
        if form {
            rl = conc(l);
            let ol = le16(m, 8 + rl + 32);
            form = ol <= n - (8 + rl + 34 + sg);
            if form {
                end = 8 + rl + 34 + conc(ol);
            }
        }
    }
    let vslot = v != SpdmVersion::SpdmVersion10 && signed;
    let cert = known[slot as usize].as_ref();
    let proof = count(Op::Verify) == 1 && nth(Op::Verify, 0).ok;
    let start: &[u8] = if v == SpdmVersion::SpdmVersion12 { &A } else { &[] };
    let pre = lb.clone().unwrap_or(start.to_vec());
    if r {
        cover("accepted");
        check(form, "MEASUREMENTS has all its fields");
        check(record_ok(m[4], &m[8..8 + rl], mh), "the record has as many blocks as announced, each one right, in order");
        check(!vslot || m[3] & 15 == slot, "the answer is for the slot asked for");
        if signed {
            check(cert.is_some(), "the certificates of the slot are known");
            check(proof, "the signature has been verified");
            let e = nth(Op::Verify, 0);
            check(eq(&e.a, &cert.unwrap().as_ref()[4 + H..]), "with the certificates of the slot");
            check(eq(&e.c, &m[end..end + SIG]), "the signature of the answer");
            check(e.algo == SpdmBaseHashAlgo::TPM_ALG_SHA_256.bits() && e.algo2 == SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256.bits(), "with the negotiated algorithms");
            check(over(&e.b, &signing("responder-measurements signing"), &cat(&[&pre, q, &m[..end]])), "over negotiation and all measurements since the last signature");
            check(la.is_none(), "the next measurements start a new transcript");
            cover("signed");
        } else {
            check(count(Op::Verify) == 0, "nothing is verified that was not asked for");
            check(toeq(&la, &[&pre, q, &m[..end]]), "the exchange continues the measurement transcript");
        }
        check(total == if op == 0 { m[2] } else { m[4] }, "the number of measurements asked for");
        check(rec.number_of_blocks == m[4] && rec.measurement_record_length.get() as usize == rl && eq(&rec.measurement_record_data[..rl], &m[8..8 + rl]), "the record is handed out as received");
    } else {
        check(total == 0xA7 && rec.number_of_blocks == 0 && eq(&rec.measurement_record_data, &rec0.measurement_record_data), "nothing is handed out of a refused answer");
        let good = form && record_ok(m[4], &m[8..8 + rl], mh) && (!vslot || m[3] & 15 == slot) && (!signed || v == SpdmVersion::SpdmVersion12 && cert.is_some() && (count(Op::Verify) == 0 || proof)) && !failed;
        check(!good, "a good answer is accepted");
        cover("refused");
        if count(Op::Verify) > 0 {
            check(la.is_none(), "a refused proof is not part of the transcript");
            cover("bad signature");
        } else if !failed && !form && lb.is_some() && la.is_some() {
            check(toeq(&la, &[&pre]), "a malformed answer is not part of the transcript");
        }
    }
    core::mem::forget(ctx);
}
/// A block of the record with symbolic content in the places that matter.
fn body(m: &mut [u8], v: SpdmVersion, blocks: &[usize]) -> usize {
    let mut at = 8;
    for (i, b) in blocks.iter().enumerate() {
        m[at] = 1 + i as u8;
        m[at + 1] = 1;
        m[at + 2] = 3 + *b as u8;
        m[at + 3] = 0;
        m[at + 4] = if *b == H { 0 } else { 0x80 };
        m[at + 5] = *b as u8;
        m[at + 6] = 0;
        at += 7 + b;
    }
    m[0] = v.get_u8();
    m[1] = 0x60;
    m[4] = blocks.len() as u8;
    m[5] = at as u8 - 8;
    m[6] = 0;
    m[7] = 0;
    at
}
/// Well-formed records. param 0: version, param 1: in a session, param 2: signed, param 3: environment fails
#[no_mangle]
pub extern "C" fn h_rq_meas() {
    install();
    w().rand_concrete = true;
    let v = ver(param(0) as u8);
    let (sess, signed) = (param(1) == 1, param(2) == 1);
    let mut m: [u8; 8 + 48 + 34 + 3 + SIG] = sym("response");
    let p = [m[2], m[3]];
    let shapes: [&[usize]; 4] = [&[], &[32], &[8], &[4, 6]];
    let at = body(&mut m, v, shapes[choose(4, "blocks") as usize]);
    m[2] = p[0];
    m[3] = p[1];
    let opq = choose(2, "opaque") as usize * 3;
    m[at + 33] = 0;
    assume(m[at + 32] as usize <= 4);
    let n = at + 34 + opq + if signed { SIG } else { 0 };
    let slot = if param(3) == 1 { 3 } else { [0, 3, 6, 8, 255][choose(5, "slot") as usize] };
    let attr = signed as u8 | choose(2, "raw") * 2;
    let op = [0, 0xff, 1][choose(3, "operation") as usize];
    meas(v, sess, attr, op, slot, H, &m[..n], param(3) == 1);
}
/// Records of any content. param 0: length of the record, param 1: measurement hash (0 none, 1 raw, 2 SHA-256),
/// param 2: most blocks (0 any)
#[no_mangle]
pub extern "C" fn h_rq_meas_rec() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    let v = SpdmVersion::SpdmVersion12;
    let rl = param(0) as usize;
    let mut m: [u8; 8 + 48 + 34] = sym("response");
    m[0] = 0x12;
    m[1] = 0x60;
    m[3] = 0;
    m[5] = rl as u8;
    m[6] = 0;
    m[7] = 0;
    m[8 + rl + 32] = 0;
    m[8 + rl + 33] = 0;
    if param(2) != 0 {
        assume(m[4] as u64 <= param(2));
    }
    meas(v, false, 0, 0xff, 0, [0, 16, 32][param(1) as usize], &m[..8 + rl + 34], false);
}
/// Responses of any code and length. param 0: version, param 1: least length, param 2: in a session
#[no_mangle]
pub extern "C" fn h_rq_meas_form() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    let v = ver(param(0) as u8);
    let mut m: [u8; 60] = sym("response");
    let n = param(1) as usize + choose(4, "length") as usize;
    assume(n <= 60);
    m[5] = choose(5, "record length") * 4;
    m[7] = 0;
    meas(v, param(2) == 1, 0, 0xff, 0, H, &m[..n], false);
}
/// Measurements one after another: the signature is over all of them.
#[no_mangle]
pub extern "C" fn h_rq_meas_run() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = RequesterContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let v = SpdmVersion::SpdmVersion12;
    let _ = begin(&mut ctx, v);
    let mut want = A.to_vec();
    let steps = 4;
    for i in 0..steps {
        let k = if i == steps - 1 { 1 } else { choose(6, "step") };
        let signed = k == 1;
        let mut m: [u8; 8 + 15 + 34 + SIG] = sym("response");
        let at = body(&mut m, v, &[8]);
        m[3] = 0;
        m[at + 32] = 0;
        m[at + 33] = 0;
        let mut n = at + 34 + if signed { SIG } else { 0 };
        let e0 = count(Op::Enc);
        match k {
            0 | 1 => {}
            2 => m[0] = 0x11,
            3 => n = at,
            4 => {
                m[1] = 0x7f;
                n = 4;
                assume(m[2] != 6 && m[2] != 0x43);
            }
            _ => {
                // another request in between
                answer(&[&[0x12, 1, 0, 0]]);
                let _ = ctx.send_receive_spdm_digest(None).is_ok();
                want = A.to_vec();
                continue;
            }
        }
        w().rx_n = 0;
        answer(&[&m[..n]]);
        let mut rec = SpdmMeasurementRecordStructure::default();
        let mut total = 0;
        let a = SpdmMeasurementAttributes::from_bits(signed as u8).unwrap();
        let vs = count(Op::Verify);
        let r = ctx.send_receive_spdm_measurement(None, 0, a, SpdmMeasurementOperation::SpdmMeasurementRequestAll, &mut total, &mut rec).is_ok();
        let q = msg(sent() - 1);
        check(r == (k < 2), "good answers are accepted, others not");
        if k < 2 {
            want = cat(&[&want, q, &m[..n - if signed { SIG } else { 0 }]]);
        }
        if signed {
            check(count(Op::Verify) == vs + 1, "the signature has been verified");
            let e = nth(Op::Verify, vs);
            check(over(&e.b, &signing("responder-measurements signing"), &want), "over all measurements since the last signature or other request");
            want = A.to_vec();
            cover("signed");
        }
    }
    core::mem::forget(ctx);
}
