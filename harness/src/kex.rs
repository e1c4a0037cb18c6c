//! Session establishment at the responder: KEY_EXCHANGE, PSK_EXCHANGE, FINISH, PSK_FINISH.
use crate::env::*;
use crate::gate::*;
use crate::sess::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_kex", h_kex),
    ("h_psk", h_psk),
    ("h_kex_form", h_kex_form),
    ("h_table", h_table),
    ("h_reuse", h_reuse),
    ("h_finish", h_finish),
    ("h_psk_finish", h_psk_finish),
];
const SHA: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const A: [u8; 7] = [0xAA; 7];

/// What a signature of version 1.2 covers in front of the hash.
pub fn signing(ctx: &str) -> Vec<u8> {
    let p = b"dmtf-spdm-v1.2.*";
    cat(&[p, p, p, p, &[0u8; 36][..36 - ctx.len()], ctx.as_bytes()])
}
/// These bytes are `pre` and then the hash of `th`.
pub fn over(b: &[u8], pre: &[u8], th: &[u8]) -> bool {
    b.len() == pre.len() + H && eq(&b[..pre.len()], pre) && preimage(&b[pre.len()..]).map_or(false, |x| eq(x, th))
}
pub enum Root<'a> {
    /// own public value, the peer's
    Dhe(&'a [u8], &'a [u8]),
    Psk(&'a [u8]),
}
/// Both directions' secrets of a phase come from this root and this transcript. Returns them.
pub fn phase_keys(s: &SpdmSession, v: SpdmVersion, st: SpdmSessionState, root: &Root, th: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let one = |req: bool| -> Vec<u8> {
        let (k, _) = dir_keys(s, st, req);
        let ke = by_out(Op::Expand, &k);
        check(ke.is_some(), "record keys are derived");
        let sec = &ke.unwrap().a;
        let label = match (st == HS, req) {
            (true, true) => "req hs data",
            (true, false) => "rsp hs data",
            (false, true) => "req app data",
            _ => "rsp app data",
        };
        let pre = info(H, v, label, &[]);
        match root {
            Root::Psk(hint) => {
                let e = by_out(if st == HS { Op::PskH } else { Op::PskM }, sec);
                check(e.map_or(false, |e| over(&e.b, &pre, th)), "the secret is bound to the transcript of the handshake");
                check(e.map_or(false, |e| eq(&e.a, hint)), "the secret comes from the pre-shared key of the hint");
            }
            Root::Dhe(own, peer) => {
                let e = by_out(Op::Expand, sec);
                check(e.map_or(false, |e| over(&e.b, &pre, th)), "the secret is bound to the transcript of the handshake");
                let mut x = by_out(Op::Extract, &e.unwrap().a);
                check(x.is_some(), "the secret is derived");
                if st == EST {
                    let salt = by_out(Op::Expand, &x.unwrap().a);
                    check(salt.is_some(), "the master secret is salted with the handshake secret");
                    x = by_out(Op::Extract, &salt.unwrap().a);
                }
                let d = x.and_then(|x| by_out(Op::DheFin, &x.b));
                check(d.map_or(false, |d| eq(&d.a, own) && eq(&d.b, peer)), "the secret comes from the key exchange of this handshake");
            }
        }
        sec.clone()
    };
    (one(true), one(false))
}
/// This HMAC is over the hash of `th` under the finished key of the secret.
pub fn finished(op: Op, tag: &[u8], v: SpdmVersion, secret: &[u8], th: &[u8]) -> bool {
    let e = if op == Op::Hmac { by_out(op, tag) } else { w().log.iter().rev().find(|e| e.op == op) };
    e.map_or(false, |e| over(&e.b, &[], th) && (op == Op::Hmac || eq(&e.c, tag)) && is_expand(&e.a, SHA, secret, &info(H, v, "finished", &[])))
}
fn prov() -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    p.my_cert_chain[0] = Some(chain(0x20, 16));
    p.my_cert_chain[3] = Some(chain(0x60, 20));
    p
}
pub fn setup(c: &mut SpdmContext, v: SpdmVersion, clear: u8, caps: u32) {
    negotiate(c, v);
    caps_rsp(c, 0x4282 | caps | if clear & 1 != 0 { 0x8000 } else { 0 });
    caps_req(c, 0x42c2 | 0x400 | if clear & 2 != 0 { 0x8000 } else { 0 } | if clear & 4 != 0 { 0x100 } else { 0 });
    set_state(c, 5);
    let _ = c.append_message_a(&A);
}
/// Offer of secured message versions, and what may be selected from it.
struct Offer {
    bytes: Vec<u8>,
    vers: Vec<u8>,
    ok: bool,
    long: bool,
}
fn offer(v: SpdmVersion, kind: u64) -> Offer {
    let old = v != SpdmVersion::SpdmVersion12;
    let head: &[u8] = if old { b"FTMD\x01\x01\0\0" } else { b"\x01\0\0\0" };
    match kind {
        0 => Offer { bytes: Vec::new(), vers: Vec::new(), ok: true, long: false },
        1 => {
            let n = choose(4, "versions") as usize;
            let vs: [u8; 6] = sym("offered versions");
            let mut b = cat(&[head, &[0, 0, 3 + 2 * n as u8, 0, 1, 1, n as u8], &vs[..2 * n]]);
            while b.len() % 4 != 0 {
                b.push(0);
            }
            let mut o = Vec::new();
            for i in 0..n {
                o.push(vs[2 * i + 1]);
            }
            Offer { bytes: b, vers: o, ok: true, long: n > 2 }
        }
        _ => {
            // anything that is no list
            let x: [u8; 6] = sym("opaque");
            let n = 1 + choose(6, "opaque length") as usize;
            Offer { bytes: x[..n].to_vec(), vers: Vec::new(), ok: true, long: false }
        }
    }
}
/// The answer's opaque data selects one of the versions offered and supported; returns it.
fn selection(v: SpdmVersion, o: &[u8], of: &Offer) -> Option<u8> {
    let mut any = false;
    for x in of.vers.iter() {
        any |= (*x == 0x10) | (*x == 0x11);
    }
    if o.len() == 0 {
        check(!any, "a common version of secured messages is selected");
        return None;
    }
    let head: &[u8] = if v != SpdmVersion::SpdmVersion12 { b"FTMD\x01\x01\0\0" } else { b"\x01\0\0\0" };
    let pre = cat(&[head, &[0, 0, 4, 0, 1, 0, 0]]);
    check(o.len() == pre.len() + 1 && eq(&o[..pre.len()], &pre), "the selection is in the negotiated format");
    let sel = o[o.len() - 1];
    let mut offered = false;
    for x in of.vers.iter() {
        offered |= *x == sel;
    }
    check(offered && (sel == 0x10 || sel == 0x11), "the selected version was offered and is supported");
    Some(sel)
}

/// KEY_EXCHANGE. params: version, in the clear (bit 0 responder, bit 1 requester), opaque data kind
#[no_mangle]
pub extern "C" fn h_kex() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() };
    cfg.heartbeat_period = sym_u8("heartbeat period");
    let hb = cfg.heartbeat_period;
    let mut ctx = ResponderContext::new(&mut io, &mut tr, cfg, prov());
    let v = ver(param(0) as u8);
    let clear = param(1) as u8;
    let meas = choose(2, "measurement capability") == 1;
    let mutual = choose(4, "mutual authentication") as u8;
    setup(&mut ctx.common, v, clear | (mutual & 1) << 2, if meas { 8 } else { 0 } | if mutual & 2 != 0 { 0x100 } else { 0 });
    let mutual = mutual == 3;
    let clear = clear == 3;
    let of = offer(v, param(2));
    let mut m = sym::<106>("request").to_vec();
    m[1] = 0xE4;
    let slot = m[3];
    let typ = m[2];
    m[104] = of.bytes.len() as u8;
    m[105] = 0;
    m.extend_from_slice(&of.bytes);
    let _ = ctx.dispatch_message(&m);
    check(sent() == 1, "KEY_EXCHANGE gets one answer");
    let r = msg(0);
    if r[1] == 0x7f {
        check(r.len() == 4 && r[0] == v.get_u8(), "the refusal is an ERROR of the negotiated version");
        let good = m[0] == v.get_u8() && (slot == 0 || slot == 3) && (typ == 0 || meas && (typ == 1 || typ == 0xff)) && !of.long;
        if v == SpdmVersion::SpdmVersion12 {
            check(!good, "a good request is not refused");
        }
        if m[0] != v.get_u8() {
            check(eq(r, &[v.get_u8(), 0x7f, 0x41, 0]), "another version gets VersionMismatch");
        } else if v == SpdmVersion::SpdmVersion10 {
            check(r[2] == 7, "version 1.0 has no key exchange");
        } else if !good {
            check(eq(&r[2..], &[1, 0]), "a request with invalid fields gets InvalidRequest");
        }
        check(ctx.common.session[0].get_session_id() == 0 && ctx.common.session[1].get_session_id() == 0, "no session is left behind");
        check(count(Op::Sign) == 0, "nothing is signed for a refused request");
        cover("refused");
    } else {
        check(m[0] == v.get_u8(), "another version is refused");
        check(v == SpdmVersion::SpdmVersion12, "signing over transcript hashes takes version 1.2");
        check(slot == 0 || slot == 3, "only provisioned slots are used");
        check(typ == 0 || meas && (typ == 1 || typ == 0xff), "a summary takes a known type and measurement capability");
        check(!of.long, "a list that is too long is refused");
        let cc = &ctx.common.provision_info.my_cert_chain[conc(slot as usize)].as_ref().unwrap().as_ref().to_vec();
        let g = nth(Op::DheGen, count(Op::DheGen) - 1);
        let sum = if typ == 0 { 0 } else { H };
        let hm = if clear { 0 } else { H };
        let at = 8 + 32 + DHE;
        check(r.len() >= at + sum + 2 + SIG + hm, "the response has all its fields");
        let ol = le16(r, at + sum);
        let end_o = at + sum + 2 + ol;
        check(r.len() == end_o + SIG + hm, "the response has exactly its fields");
        check(r[6] == if mutual { 4 } else { 0 }, "mutual authentication is asked for exactly when both sides can");
        check(eq(&r[..6], &[0x12, 0x64, hb, 0, 0xFD, 0xFF]) && r[7] == 0, "header, heartbeat period, session id and mutual authentication request");
        let rnd = nth(Op::Rand, 0);
        check(count(Op::Rand) == 1 && eq(&r[8..40], &rnd.out), "the response has a fresh random number");
        check(count(Op::DheGen) == 1 && eq(&r[40..at], &g.out), "the response has a fresh exchange value");
        if typ != 0 {
            let e = by_out(Op::MSum, &r[at..at + H]);
            check(e.map_or(false, |e| e.n == typ as i64), "the measurement summary is of the type asked for");
        }
        let sel = selection(v, &r[at + sum + 2..end_o], &of);
        let hc = nth(Op::Hash, 0);
        let th = |extra: &[&[u8]]| {
            let h = w().log.iter().find(|e| e.op == Op::Hash && e.a.len() == cc.len() && eq(&e.a, cc));
            check(h.is_some(), "the hash of the slot's certificate chain is used");
            cat(&[&A, &h.unwrap().out, &m, &r[..end_o], &cat(extra)])
        };
        let sig = &r[end_o..end_o + SIG];
        let e = by_out(Op::Sign, sig);
        check(e.is_some() && count(Op::Sign) == 1, "the response has a signature made for it");
        let e = e.unwrap();
        check(e.algo == SHA.bits() && e.algo2 == SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256.bits(), "signature algorithms as negotiated");
        check(over(&e.a, &signing("responder-key_exchange_rsp signing"), &th(&[])), "the signature covers context and transcript");
        let s = &ctx.common.session[0];
        check(s.get_session_id() == 0xFFFD_0000 | m[4] as u32 | (m[5] as u32) << 8, "the session has the id of both halves");
        check(s.get_session_state() == HS && !s.get_use_psk(), "the session is in its handshake");
        let th1 = th(&[sig]);
        let (_, rs) = phase_keys(s, v, HS, &Root::Dhe(&g.out, &m[40..104]), &th1);
        if !clear {
            check(finished(Op::Hmac, &r[end_o + SIG..], v, &rs, &th1), "the response proves the responder's finished key over the transcript");
        }
        if let Some(x) = sel {
            check(s.secure_spdm_version_sel == x, "the selected version is used");
        }
        check(s.heartbeat_period == hb, "the session has the heartbeat period announced");
        check(ctx.common.session[1].get_session_id() == 0, "one session is made");
        check(!clear || ctx.common.runtime_info.get_last_session_id() == Some(s.get_session_id()), "a handshake in the clear goes on with this session");
        cover("answered");
    }
    core::mem::forget(ctx);
}

/// PSK_EXCHANGE. params: version, with context, opaque data kind
#[no_mangle]
pub extern "C" fn h_psk() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut cfg = SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() };
    cfg.heartbeat_period = sym_u8("heartbeat period");
    let hb = cfg.heartbeat_period;
    let mut ctx = ResponderContext::new(&mut io, &mut tr, cfg, prov());
    let v = ver(param(0) as u8);
    let context = param(1) == 1;
    let meas = choose(2, "measurement capability") == 1;
    setup(&mut ctx.common, v, choose(4, "in the clear"), if context { 0x800 } else { 0x400 } | if meas { 8 } else { 0 });
    let caps = ctx.common.negotiate_info.rsp_capabilities_sel.bits() & !0xC00 | if context { 0x800 } else { 0x400 };
    caps_rsp(&mut ctx.common, caps);
    let of = offer(v, param(2));
    let hl = [0usize, 3, 8, 9][choose(4, "hint length") as usize];
    let cl = [0usize, 2, 32, 33][choose(4, "context length") as usize];
    let head: [u8; 12] = sym("request");
    let hint: [u8; 9] = sym("hint");
    let con: [u8; 33] = sym("context");
    let mut m = cat(&[&head, &hint[..hl], &con[..cl], &of.bytes]);
    m[1] = 0xE6;
    let typ = m[2];
    m[6] = hl as u8;
    m[7] = 0;
    m[8] = cl as u8;
    m[9] = 0;
    m[10] = of.bytes.len() as u8;
    m[11] = 0;
    let _ = ctx.dispatch_message(&m);
    check(sent() == 1, "PSK_EXCHANGE gets one answer");
    let r = msg(0);
    if r[1] == 0x7f {
        let good = m[0] == v.get_u8() && (typ == 0 || meas && (typ == 1 || typ == 0xff)) && !of.long && hl <= 8 && cl <= 32 && v != SpdmVersion::SpdmVersion10;
        check(!good, "a good request is not refused");
        check(r.len() == 4 && r[0] == v.get_u8(), "the refusal is an ERROR of the negotiated version");
        if m[0] != v.get_u8() {
            check(r[2] == 0x41, "another version gets VersionMismatch");
        } else if v == SpdmVersion::SpdmVersion10 {
            check(r[2] == 7, "version 1.0 has no pre-shared keys");
        } else {
            check(eq(&r[2..], &[1, 0]), "a request with invalid fields gets InvalidRequest");
        }
        check(ctx.common.session[0].get_session_id() == 0 && ctx.common.session[1].get_session_id() == 0, "no session is left behind");
        cover("refused");
    } else {
        check(m[0] == v.get_u8() && v != SpdmVersion::SpdmVersion10, "another version is refused");
        check(typ == 0 || meas && (typ == 1 || typ == 0xff), "a summary takes a known type and measurement capability");
        check(!of.long && hl <= 8 && cl <= 32, "lists, hints and contexts that are too long are refused");
        let sum = if typ == 0 { 0 } else { H };
        let rc = if context { 32 } else { 0 };
        check(r.len() >= 12 + sum + rc + H, "the response has all its fields");
        check(eq(&r[..8], &[v.get_u8(), 0x66, hb, 0, 0xFD, 0xFF, 0, 0]), "header, heartbeat period and session id");
        check(le16(r, 8) == rc, "the context is of the announced length");
        let ol = le16(r, 10);
        let end_o = 12 + sum + rc + ol;
        check(r.len() == end_o + H, "the response has exactly its fields");
        if typ != 0 {
            let e = by_out(Op::MSum, &r[12..12 + H]);
            check(e.map_or(false, |e| e.n == typ as i64), "the measurement summary is of the type asked for");
        }
        if context {
            check(count(Op::Rand) == 1 && eq(&r[12 + sum..12 + sum + rc], &nth(Op::Rand, 0).out), "the context is a fresh random number");
        }
        let sel = selection(v, &r[12 + sum + rc..end_o], &of);
        let s = &ctx.common.session[0];
        check(s.get_session_id() == 0xFFFD_0000 | m[4] as u32 | (m[5] as u32) << 8, "the session has the id of both halves");
        check(s.get_use_psk(), "the session uses a pre-shared key");
        check(s.get_session_state() == if context { HS } else { EST }, "the session is established at once exactly when there is no context");
        let th1 = cat(&[&A, &m, &r[..end_o]]);
        let root = Root::Psk(&hint[..hl]);
        let (_, rs) = phase_keys(s, v, HS, &root, &th1);
        check(finished(Op::Hmac, &r[end_o..], v, &rs, &th1), "the response proves the responder's finished key over the transcript");
        if !context {
            phase_keys(s, v, EST, &root, &cat(&[&th1, &r[end_o..]]));
            cover("established");
        }
        if let Some(x) = sel {
            check(s.secure_spdm_version_sel == x, "the selected version is used");
        }
        check(s.heartbeat_period == hb, "the session has the heartbeat period announced");
        check(ctx.common.session[1].get_session_id() == 0, "one session is made");
        cover("answered");
    }
    core::mem::forget(ctx);
}

/// Requests of any length. params: opcode, length
#[no_mangle]
pub extern "C" fn h_kex_form() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() }, prov());
    setup(&mut ctx.common, ver(2), 0, 0x808);
    let op = param(0) as u8;
    let n = param(1) as usize;
    let mut b: [u8; 144] = sym("request");
    b[1] = op;
    let m = &b[..n];
    let before = snap(&mut ctx.common);
    let _ = ctx.dispatch_message(m);
    let after = snap(&mut ctx.common);
    check(sent() == 1, "one answer");
    check(same_sess(&before.sess[1], &after.sess[1], true), "the other slot stays free");
    let whole = if op == 0xE4 {
        n >= 106 && 106 + le16(m, 104) <= n
    } else {
        n >= 12 && le16(m, 6) <= 8 && le16(m, 8) <= 32 && 12 + le16(m, 6) + le16(m, 8) + le16(m, 10) <= n
    };
    if msg(0)[1] == 0x7f {
        check(msg(0).len() == 4, "the refusal is an ERROR");
        check(after.sess[0].id == 0, "no session is left behind");
        cover("refused");
    } else {
        check(whole, "a truncated request is refused");
        check(after.sess[0].id != 0, "an accepted request makes a session");
        cover("answered");
    }
    core::mem::forget(ctx);
}

/// Slots and ids. param 0: opcode, param 1: whether a call fails
#[no_mangle]
pub extern "C" fn h_table() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() }, prov());
    let v = ver(2);
    let context = choose(2, "context") == 1;
    setup(&mut ctx.common, v, choose(4, "in the clear"), if context { 0x808 } else { 0x408 });
    let used = choose(4, "slots in use");
    let q: [u8; 4] = sym("ids in use");
    for i in 0..2usize {
        if used >> i & 1 == 1 {
            let st = if choose(2, "phase") == 1 { EST } else { HS };
            keyed(&mut ctx.common.session[i], (0xFFFD - i as u32) << 16 | le16(&q, 2 * i) as u32, v, &[3 + i as u8; 64]);
            ctx.common.session[i].set_session_state(st);
        }
    }
    let id: [u8; 2] = sym("session id");
    let typ = if choose(2, "summary") == 1 { 0xff } else { 0 };
    let m = if param(0) == 0xE4 {
        cat(&[&[0x12, 0xE4, typ, 0], &id, &[0, 0], &[9; 96], &[0, 0]])
    } else {
        cat(&[&[0x12, 0xE6, typ, 0], &id, &[2, 0, 2, 0, 0, 0, 1, 2, 3, 4]])
    };
    let before = snap(&mut ctx.common);
    if param(1) == 1 {
        let f = choose(48, "failing call") as usize;
        w().fail_at = w().calls + f;
        w().failed = false;
    }
    let _ = ctx.dispatch_message(&m);
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    check(sent() == 1, "one answer");
    let r = msg(0);
    check(after.st == before.st && after.neg == before.neg && eq(&before.a, &after.a), "the connection stays");
    if r[1] == 0x7f {
        check(r.len() == 4 && r[0] == 0x12, "the refusal is an ERROR of the negotiated version");
        check(same_sess(&before.sess[0], &after.sess[0], true) && same_sess(&before.sess[1], &after.sess[1], true), "a refused or failed request leaves the sessions alone");
        check(used == 3 || w().failed, "a request that fits is only refused when something fails");
        if used == 3 && !w().failed {
            check(r[2] == 0x0a, "a full table is answered with SessionLimitExceeded");
            cover("full");
        } else {
            cover("failed");
        }
    } else {
        check(!w().failed, "no response goes out when something failed");
        check(used != 3, "there is no session beyond the limit");
        let i = if used & 1 == 0 { 0 } else { 1 };
        check(same_sess(&before.sess[1 - i], &after.sess[1 - i], true), "the other session is not affected");
        let n = &after.sess[i];
        check(n.id == (le16(r, 4) as u32) << 16 | le16(&id, 0) as u32 && n.id != 0, "the session has the id both sides have seen");
        check(n.id != after.sess[1 - i].id && n.id >> 16 != after.sess[1 - i].id >> 16, "ids are unique, whatever the requester chooses");
        let e = &ctx.common.session[i];
        check(e.get_session_state() == if param(0) == 0xE6 && !context { EST } else { HS }, "the session is in the phase the exchange leads to");
        cover("made");
    }
    core::mem::forget(ctx);
}

/// A slot used before by a session of any kind. param 0: opcode
#[no_mangle]
pub extern "C" fn h_reuse() {
    install();
    w().rand_concrete = true;
    w().free_verdict = false;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], heartbeat_period: 5, ..Default::default() }, prov());
    let v = ver(2);
    let psk = param(0) == 0xE6;
    setup(&mut ctx.common, v, 0, 0x808);
    let old_psk = choose(2, "was psk") == 1;
    let ks = [0x1111u32, 0x2222];
    for i in 0..2usize {
        let s = &mut ctx.common.session[i];
        keyed(s, (0xFFFD - i as u32) << 16 | ks[i], v, &[3 + i as u8; 64]);
        s.set_use_psk(old_psk);
        s.set_session_state(EST);
        s.set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ);
        s.heartbeat_period = 0x77;
        s.secure_spdm_version_sel = 0x10;
        s.set_slot_id(5);
        let mut p = SpdmPskHintStruct::default();
        p.data_size = 3;
        s.runtime_info.psk_hint = Some(p);
        s.runtime_info.message_a = ManagedBufferA::default();
        s.runtime_info.rsp_cert_hash = Some(SpdmDigestStruct::from(&[0x99u8; 32][..]));
        s.runtime_info.req_cert_hash = Some(SpdmDigestStruct::from(&[0x98u8; 32][..]));
        let id = s.get_session_id();
        let _ = ctx.common.append_message_k(id, &[0xDD; 5]);
        let _ = ctx.common.append_message_f(false, id, &[0xDE; 5]);
        let _ = ctx.common.append_message_m(Some(id), &[0xDF; 5]);
        ctx.common.session[i].set_request_direction_sequence_number(9);
        ctx.common.session[i].set_response_direction_sequence_number(7);
    }
    // one of them ends
    let i = choose(2, "slot") as usize;
    let id = ctx.common.session[i].get_session_id();
    w().rx_secured = true;
    unsafe { RX = record(id, 9, &[0x12, 0xEC, 0, 0]) };
    w().rx = Some(rx1);
    let keep = snap(&mut ctx.common);
    let _ = ctx.process_message(0, &[]);
    check(sent() == 1, "END_SESSION is acknowledged");
    let gone = snap(&mut ctx.common);
    check(gone.sess[i].id == 0 && gone.sess[i].state == 0, "END_SESSION frees its session");
    check(same_sess(&keep.sess[1 - i], &gone.sess[1 - i], true), "END_SESSION frees no other session");
    // the slot is used again
    let q: [u8; 2] = sym("session id");
    let m = if psk { cat(&[&[0x12, 0xE6, 0, 0], &q, &[2, 0, 2, 0, 0, 0, 1, 2, 3, 4]]) } else { cat(&[&[0x12, 0xE4, 0, 3], &q, &[0, 0], &[9; 96], &[0, 0]]) };
    let _ = ctx.dispatch_message(&m);
    let r = msg(1);
    check(r[1] == if psk { 0x66 } else { 0x64 }, "a freed slot can be used again");
    let s = &ctx.common.session[i];
    check(s.get_session_id() == (0xFFFD - i as u32) << 16 | le16(&q, 0) as u32, "the slot's id, the requester's choice");
    check(s.get_use_psk() == psk && s.get_session_state() == HS, "kind and phase of the new session");
    check(s.heartbeat_period == 5 && s.secure_spdm_version_sel == 0x11, "nothing of the old session's parameters is left");
    check(l1l2_of(s).is_none(), "no measurement transcript is left");
    let st = s.clone().export_keys();
    check(st.0.sequence_number == 0 && st.1.sequence_number == 0, "record numbers start again");
    let sc = {
        let mut s = s.clone();
        s.set_session_state(HS);
        let mut b = [0u8; 64];
        let _ = s.encode_spdm_secured_message(&[1], &mut b, true);
        le16(&b, 4)
    };
    check(sc == 0, "handshake record numbers start again");
    if psk {
        check(s.get_mut_auth_requested().is_empty(), "no mutual authentication is left over");
        phase_keys(s, v, HS, &Root::Psk(&[1, 2]), &cat(&[&A, &m, &r[..r.len() - H]]));
    } else {
        let cc = ctx.common.provision_info.my_cert_chain[3].as_ref().unwrap().as_ref().to_vec();
        let h = w().log.iter().rev().find(|e| e.op == Op::Hash && eq(&e.a, &cc));
        check(h.is_some(), "the hash of the slot's certificate chain is used");
        let g = nth(Op::DheGen, 0);
        phase_keys(s, v, HS, &Root::Dhe(&g.out, &[9; 64]), &cat(&[&A, &h.unwrap().out, &m, &r[..r.len() - H]]));
    }
    cover("reused");
    core::mem::forget(ctx);
}
static mut RX: Vec<u8> = Vec::new();
fn rx1(_: usize) -> Option<Vec<u8>> {
    unsafe { Some(RX.clone()) }
}

/// FINISH after a key exchange. params: in the clear, mutual authentication, fault
#[no_mangle]
pub extern "C" fn h_finish() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() }, prov());
    let v = ver(2);
    let clear = param(0) == 1;
    let mutual = param(1) == 1;
    setup(&mut ctx.common, v, if clear { 3 } else { choose(3, "one side in the clear") } | if mutual { 4 } else { 0 }, if mutual { 0x908 } else { 0x808 });
    // another session is there already, in either phase
    keyed(&mut ctx.common.session[0], 0xFFFD_1234, v, &[3; 64]);
    ctx.common.session[0].set_session_state(if choose(2, "other established") == 1 { EST } else { HS });
    let m = cat(&[&[0x12, 0xE4, 0, 3, 0x55, 0x44, 0, 0], &[9; 96], &[0, 0]]);
    let _ = ctx.dispatch_message(&m);
    let id = 0xFFFC_4455u32;
    let r = msg(0);
    check(r[1] == 0x64 && ctx.common.session[1].get_session_id() == id, "the key exchange succeeds");
    check(r[6] == if mutual { 4 } else { 0 }, "mutual authentication is asked for exactly when both sides can");
    // the requester's chains, as retrieved by encapsulated requests
    let ps = choose(3, "peer slot") as usize;
    if ps < 2 {
        ctx.common.peer_info.peer_cert_chain[2 * ps] = Some(chain(0x90 + ps as u8, 24));
    }
    ctx.common.peer_info.peer_cert_chain[5] = Some(chain(0x99, 24));
    ctx.common.runtime_info.set_peer_used_cert_chain_slot_id(2 * (ps as u8));
    let cc = ctx.common.provision_info.my_cert_chain[3].as_ref().unwrap().as_ref().to_vec();
    let h = w().log.iter().find(|e| e.op == Op::Hash && eq(&e.a, &cc)).unwrap();
    let k = cat(&[&A, &h.out, &m, r]);
    let own = nth(Op::DheGen, 0).out.clone();
    let (rq, rs) = phase_keys(&ctx.common.session[1], v, HS, &Root::Dhe(&own, &[9; 64]), &cat(&[&A, &h.out, &m, &r[..r.len() - if clear { 0 } else { H }]]));
    // FINISH
    let f: [u8; 4 + SIG + H] = sym("finish");
    let mut f = f;
    f[1] = 0xE5;
    let n = [4 + SIG + H, 4 + H, 4 + SIG + H - 1, 4 + H - 1, 3, 2][choose(6, "length") as usize];
    let f = &f[..n];
    if clear {
        unsafe { RX = f.to_vec() };
    } else {
        w().rx_secured = true;
        unsafe { RX = record(id, 0, f) };
    }
    w().rx = Some(rx1);
    let before = snap(&mut ctx.common);
    let mark = w().log.len();
    if param(2) == 1 {
        let x = choose(30, "failing call") as usize;
        w().fail_at = w().calls + x;
        w().failed = false;
    }
    let _ = ctx.process_message(0, &[]);
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    check(same_sess(&before.sess[0], &after.sess[0], true), "the other session is not affected");
    check(after.sess[1].id == id, "the session keeps its id");
    check(after.st == before.st && after.neg == before.neg, "the connection is not affected");
    let ev = |op: Op| w().log[mark..].iter().find(|e| e.op == op);
    if !clear && ev(Op::Dec).map_or(true, |e| !e.ok) {
        check(sent() == 1 && after.sess[1].state == before.sess[1].state, "a record that does not decrypt has no effect");
        core::mem::forget(ctx);
        return;
    }
    if sent() == 1 {
        check(w().failed, "FINISH gets an answer");
        check(after.sess[1].state == before.sess[1].state, "without an answer the session stays in its handshake");
        core::mem::forget(ctx);
        return;
    }
    check(sent() == 2, "FINISH gets one answer");
    let a: Vec<u8> = if clear {
        msg(1).to_vec()
    } else {
        let e = w().log[mark..].iter().rev().find(|e| e.op == Op::Enc).unwrap();
        check(eq(&e.a, &{ dir_keys(&ctx.common.session[1], HS, false).0 }), "the answer is protected with the handshake key");
        e.d[2..].to_vec()
    };
    if a[1] == 0x7f {
        check(a.len() == 4 && a[0] == 0x12, "the refusal is an ERROR");
        check(after.sess[1].state == before.sess[1].state, "a refused FINISH leaves the session in its handshake");
        let v_bad = ev(Op::Verify).map_or(false, |e| !e.ok) || ev(Op::HmacV).map_or(false, |e| !e.ok);
        if v_bad {
            check(w().failed || eq(&a, &[0x12, 0x7f, 6, 0]), "a wrong proof is answered with DecryptError");
            cover("wrong proof");
        } else if !w().failed {
            check(f[0] != 0x12 || n < 4 + H || f[2] > 1 || (f[2] & 1 == 1) != mutual || (mutual && (ps == 2 || n < 4 + SIG + H)), "a good FINISH is not refused");
            check(f[0] == 0x12 || eq(&a, &[0x12, 0x7f, 0x41, 0]), "another version gets VersionMismatch");
            cover("refused");
        } else {
            cover("failed");
        }
    } else {
        check(!w().failed, "no response goes out when something failed");
        check(f[0] == 0x12 && (f[2] & 1 == 1) == mutual, "a signature is there exactly when mutual authentication was asked for");
        check(n >= 4 + H + if mutual { SIG } else { 0 }, "a truncated FINISH is refused");
        check(eq(&a[..4], &[0x12, 0x65, 0, 0]) && a.len() == if clear { 4 + H } else { 4 }, "FINISH_RSP layout");
        let mut t = k.clone();
        let mut at = 4;
        if mutual {
            check(ps < 2, "mutual authentication takes the requester's certificates");
            let pc = ctx.common.peer_info.peer_cert_chain[2 * ps].as_ref().unwrap().as_ref().to_vec();
            let hp = w().log[mark..].iter().find(|e| e.op == Op::Hash && e.a.len() == pc.len() && eq(&e.a, &pc));
            check(hp.is_some(), "the transcript has the requester's certificate chain");
            t = cat(&[&t, &hp.unwrap().out, &f[..4]]);
            let e = ev(Op::Verify);
            check(e.map_or(false, |e| e.ok && eq(&e.c, &f[4..4 + SIG])), "the requester's signature is checked");
            let e = e.unwrap();
            check(eq(&e.a, &pc[4 + H..]), "with the requester's certificates");
            check(over(&e.b, &signing("requester-finish signing"), &t), "over context and transcript");
            t = cat(&[&t, &f[4..4 + SIG]]);
            at = 4 + SIG;
            cover("mutual");
        } else {
            check(ev(Op::Verify).is_none(), "no signature is needed");
            t = cat(&[&t, &f[..4]]);
        }
        check(ev(Op::HmacV).map_or(false, |e| e.ok), "the requester's proof is checked");
        check(finished(Op::HmacV, &f[at..at + H], v, &rq, &t), "with the requester's finished key over the transcript");
        t = cat(&[&t, &f[at..at + H], &a[..4]]);
        if clear {
            check(finished(Op::Hmac, &a[4..], v, &rs, &t), "FINISH_RSP proves the responder's finished key over the transcript");
            t = cat(&[&t, &a[4..]]);
        }
        check(after.sess[1].state == EST.get_u8(), "the session is established");
        phase_keys(&ctx.common.session[1], v, EST, &Root::Dhe(&own, &[9; 64]), &t);
        cover("established");
    }
    core::mem::forget(ctx);
}

/// PSK_FINISH, and FINISH or PSK_FINISH in a session of the other kind. params: kind of the session, request, fault
#[no_mangle]
pub extern "C" fn h_psk_finish() {
    install();
    w().rand_concrete = true;
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo { secure_spdm_version: [0x10, 0x11], ..Default::default() }, prov());
    let psk = param(0) == 1;
    let op = param(1) as u8;
    let v = if psk { ver(1 + choose(2, "version")) } else { ver(2) };
    setup(&mut ctx.common, v, 0, 0x808);
    keyed(&mut ctx.common.session[0], 0xFFFD_1234, v, &[3; 64]);
    ctx.common.session[0].set_session_state(if choose(2, "other established") == 1 { EST } else { HS });
    let m = if psk { cat(&[&[v.get_u8(), 0xE6, 0, 0, 0x55, 0x44], &[2, 0, 2, 0, 0, 0, 1, 2, 3, 4]]) } else { cat(&[&[0x12, 0xE4, 0, 3, 0x55, 0x44, 0, 0], &[9; 96], &[0, 0]]) };
    let _ = ctx.dispatch_message(&m);
    let id = 0xFFFC_4455u32;
    let r = msg(0);
    check(r[1] == if psk { 0x66 } else { 0x64 }, "the exchange succeeds");
    let rq = if psk { phase_keys(&ctx.common.session[1], v, HS, &Root::Psk(&[1, 2]), &cat(&[&A, &m, &r[..r.len() - H]])).0 } else { Vec::new() };
    let f: [u8; 4 + H + 2] = sym("finish");
    let mut f = f;
    f[1] = op;
    let n = [4 + H, 4 + H + 2, 4 + H - 1, 4, 3, 2][choose(6, "length") as usize];
    let f = &f[..n];
    w().rx_secured = true;
    unsafe { RX = record(id, 0, f) };
    w().rx = Some(rx1);
    let before = snap(&mut ctx.common);
    let mark = w().log.len();
    if param(2) == 1 {
        let x = choose(24, "failing call") as usize;
        w().fail_at = w().calls + x;
        w().failed = false;
    }
    let _ = ctx.process_message(0, &[]);
    w().fail_at = usize::MAX;
    let after = snap(&mut ctx.common);
    check(same_sess(&before.sess[0], &after.sess[0], true), "the other session is not affected");
    check(after.sess[1].id == id, "the session keeps its id");
    check(after.st == before.st && after.neg == before.neg, "the connection is not affected");
    let ev = |op: Op| w().log[mark..].iter().find(|e| e.op == op);
    if sent() == 1 {
        check(w().failed || ev(Op::Dec).map_or(true, |e| !e.ok), "the request gets an answer");
        check(after.sess[1].state == before.sess[1].state, "without an answer the session stays in its handshake");
        core::mem::forget(ctx);
        return;
    }
    let e = w().log[mark..].iter().rev().find(|e| e.op == Op::Enc).unwrap();
    check(eq(&e.a, &{ dir_keys(&ctx.common.session[1], HS, false).0 }), "the answer is protected with the handshake key");
    let a = &e.d[2..];
    if a[1] == 0x7f {
        check(a.len() == 4 && a[0] == v.get_u8(), "the refusal is an ERROR");
        check(after.sess[1].state == before.sess[1].state, "a refused request leaves the session in its handshake");
        if ev(Op::HmacV).map_or(false, |e| !e.ok) {
            check(w().failed || eq(a, &[v.get_u8(), 0x7f, 6, 0]), "a wrong proof is answered with DecryptError");
            cover("wrong proof");
        } else if !w().failed {
            check(f[0] != v.get_u8() || n < 4 + H || psk != (op == 0xE7), "a good request is not refused");
            check(f[0] == v.get_u8() || eq(a, &[v.get_u8(), 0x7f, 0x41, 0]), "another version gets VersionMismatch");
            cover(if psk == (op == 0xE7) { "refused" } else { "other kind" });
        } else {
            cover("failed");
        }
    } else {
        check(!w().failed && f[0] == v.get_u8() && n >= 4 + H, "only whole requests are answered");
        check(psk && op == 0xE7, "each kind of session has its own way to finish");
        check(eq(a, &[v.get_u8(), 0x67, 0, 0]), "PSK_FINISH_RSP layout");
        let t = cat(&[&A, &m, r, &f[..4]]);
        check(ev(Op::HmacV).map_or(false, |e| e.ok), "the requester's proof is checked");
        check(finished(Op::HmacV, &f[4..4 + H], v, &rq, &t), "with the requester's finished key over the transcript");
        check(after.sess[1].state == EST.get_u8(), "the session is established");
        phase_keys(&ctx.common.session[1], v, EST, &Root::Psk(&[1, 2]), &cat(&[&t, &f[4..4 + H], a]));
        cover("established");
    }
    core::mem::forget(ctx);
}
