//! What is written is what is read: integers, messages, transport frames.
use crate::env::*;
use crate::sx::*;
use alloc::vec::Vec;
use codec::{u24, Codec, Reader, Writer};
use mctp_transport::MctpTransportEncap;
use pcidoe_transport::PciDoeTransportEncap;
use spdmlib::common::spdm_codec::SpdmCodec;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_int", h_int), ("h_cursor", h_cursor), ("h_msg", h_msg), ("h_mctp", h_mctp), ("h_doe", h_doe), ("h_doe_rx", h_doe_rx), ("h_status", h_status)];

fn int<T: Codec>(n: usize, make: impl Fn(u128) -> T, get: impl Fn(&T) -> u128) {
    let b: [u8; 16] = sym("value");
    let mut x = 0u128;
    for i in 0..n {
        x |= (b[i] as u128) << (8 * i);
    }
    let (cap, at) = (choose(20, "buffer") as usize, choose(4, "position") as usize);
    let mut buf = [0xA5u8; 24];
    let (ok, used) = {
        let mut wr = Writer::init(&mut buf[..cap]);
        let mut at0 = 0;
        for _ in 0..at {
            at0 += wr.push(0x11).is_some() as usize;
        }
        let r = make(x).encode(&mut wr);
        let u = wr.used();
        check(wr.left() == cap - u && wr.used_slice().len() == u, "what is left is what is not used");
        if at0 < at {
            return;
        }
        check(r == if at + n <= cap { Ok(n) } else { Err(codec::EncodeErr) }, "it is written exactly when it fits");
        (r.is_ok(), u)
    };
    check(used <= cap && used >= at, "the cursor stays in the buffer");
    check(buf[cap..].iter().all(|&c| c == 0xA5) && buf[..at.min(cap)].iter().all(|&c| c == 0x11), "nothing else is written");
    if ok {
        check(used == at + n && eq(&buf[at..at + n], &b[..n]), "least significant byte first");
        check(buf[at + n..].iter().all(|&c| c == 0xA5), "nothing else is written");
        cover("written");
    } else {
        cover("full");
    }
    // reading
    let m: [u8; 20] = sym("bytes");
    let have = choose(20, "bytes there") as usize;
    let mut rd = Reader::init(&m[..have]);
    let skip = choose(3, "read before") as usize;
    if rd.take(skip).is_none() {
        check(skip > have && rd.used() == 0, "what is not there is not read");
        return;
    }
    match T::read(&mut rd) {
        Some(v) => {
            let mut y = 0u128;
            for i in 0..n {
                y |= (m[skip + i] as u128) << (8 * i);
            }
            check(skip + n <= have && rd.used() == skip + n && rd.left() == have - skip - n && rd.any_left() == (skip + n < have), "exactly its bytes are read");
            check(get(&v) == y, "it is what the bytes say");
            cover("read");
        }
        None => {
            check(skip + n > have, "what is there is read");
            check(rd.used() == skip, "nothing is used up by a failed read");
            cover("short");
        }
    }
}
/// Integers. param: bits
#[no_mangle]
pub extern "C" fn h_int() {
    match param(0) {
        8 => int::<u8>(1, |x| x as u8, |v| *v as u128),
        16 => int::<u16>(2, |x| x as u16, |v| *v as u128),
        24 => int::<u24>(3, |x| u24::new(x as u32), |v| v.get() as u128),
        32 => int::<u32>(4, |x| x as u32, |v| *v as u128),
        64 => int::<u64>(8, |x| x as u64, |v| *v as u128),
        _ => int::<u128>(16, |x| x, |v| *v),
    }
}

/// Any sequence of operations on a reader and a writer.
#[no_mangle]
pub extern "C" fn h_cursor() {
    if choose(2, "side") == 0 {
        reader();
    } else {
        writer();
    }
    cover("done");
}
fn reader() {
    let m: [u8; 8] = sym("bytes");
    let mut rd = Reader::init(&m);
    let mut at = 0usize;
    for _ in 0..3 {
        let l = sym_u8("length") as usize;
        let l = if l > 10 { usize::MAX - (l - 10) } else { conc(l) };
        match choose(3, "operation") {
            0 => match rd.take(l) {
                Some(x) => {
                    check(at + l <= 8 && eq(x, &m[at..at + l]), "what is taken is the next bytes");
                    at += l;
                }
                None => check(l > 8 - at, "what is there is taken"),
            },
            1 => match rd.sub(l) {
                Some(mut s) => {
                    check(at + l <= 8 && s.left() == l && s.used() == 0, "a part has its own bounds");
                    check(eq(s.rest(), &m[at..at + l]), "a part is the next bytes");
                    check(s.left() == 0, "nothing is left after the rest");
                    at += l;
                }
                None => check(l > 8 - at, "what is there is taken"),
            },
            _ => {
                check(eq(rd.rest(), &m[at..]), "the rest is everything else");
                at = 8;
            }
        }
        check(rd.used() == at && rd.left() == 8 - at && rd.any_left() == (at < 8), "the cursor is where it should be");
    }
}
fn writer() {
    let mut buf = [0xA5u8; 10];
    {
        let mut wr = Writer::init(&mut buf[1..9]);
        let mut u = 0usize;
        for _ in 0..4 {
            match choose(3, "operation") {
                0 => {
                    let l = choose(10, "length") as usize;
                    let r = wr.extend_from_slice(&[0x5A; 10][..l]);
                    check(r == if u + l <= 8 { Some(l) } else { None }, "it is written exactly when it fits");
                    if u + l <= 8 {
                        u += l;
                    }
                }
                1 => {
                    let c = sym_u8("byte");
                    let r = wr.push(c);
                    check(r == if u < 8 { Some(c) } else { None }, "it is written exactly when it fits");
                    if u < 8 {
                        u += 1;
                        check(wr.used_slice()[u - 1] == c, "it is what was given");
                    }
                }
                _ => {
                    wr.clear();
                    u = 0;
                }
            }
            check(wr.used() == u && wr.left() == 8 - u && wr.used_slice().len() == u && wr.mut_used_slice().len() == u, "the cursor is where it should be");
        }
    }
    check(buf[0] == 0xA5 && buf[9] == 0xA5, "nothing is written outside");
}

enum M {
    G(SpdmMessage),
    VQ(SpdmVendorDefinedRequestPayload),
    VR(SpdmVendorDefinedResponsePayload),
    E0(SpdmGetEncapsulatedRequestPayload),
    E1(SpdmEncapsulatedRequestPayload),
    E2(SpdmDeliverEncapsulatedResponsePayload),
    E3(SpdmEncapsulatedResponseAckPayload),
}
fn head(r: &mut Reader) -> Option<u8> {
    SpdmMessageHeader::read(r).map(|h| h.request_response_code.get_u8())
}
fn dec(op: u8, c: &mut SpdmContext, r: &mut Reader) -> Option<M> {
    if !matches!(op, 0xFE | 0x7E | 0xEA | 0x6A | 0xEB | 0x6B) {
        return SpdmMessage::spdm_read(c, r).map(M::G);
    }
    if head(r)? != op {
        return None;
    }
    Some(match op {
        0xFE => M::VQ(SpdmVendorDefinedRequestPayload::spdm_read(c, r)?),
        0x7E => M::VR(SpdmVendorDefinedResponsePayload::spdm_read(c, r)?),
        0xEA => M::E0(SpdmGetEncapsulatedRequestPayload::spdm_read(c, r)?),
        0x6A => M::E1(SpdmEncapsulatedRequestPayload::spdm_read(c, r)?),
        0xEB => M::E2(SpdmDeliverEncapsulatedResponsePayload::spdm_read(c, r)?),
        _ => M::E3(SpdmEncapsulatedResponseAckPayload::spdm_read(c, r)?),
    })
}
fn enc(op: u8, v: u8, m: &M, c: &mut SpdmContext, wr: &mut Writer) -> Option<usize> {
    let p = match m {
        M::G(m) => return m.spdm_encode(c, wr).ok(),
        _ => {
            let _ = v.encode(wr).ok()?;
            let _ = op.encode(wr).ok()?;
            match m {
                M::VQ(p) => p.spdm_encode(c, wr),
                M::VR(p) => p.spdm_encode(c, wr),
                M::E0(p) => p.spdm_encode(c, wr),
                M::E1(p) => p.spdm_encode(c, wr),
                M::E2(p) => p.spdm_encode(c, wr),
                M::E3(p) => p.spdm_encode(c, wr),
                M::G(_) => unreachable!(),
            }
        }
    };
    p.ok().map(|n| n + 2)
}
/// Which bits of a byte carry something (the others are reserved: written as zero, ignored when read).
fn bits(op: u8, v: u8, i: usize, b: &[u8]) -> u8 {
    let cap = |x: [u8; 4]| x[i - 8];
    let alg = |f: usize| match (i - f) % 4 {
        2 => match b[i - 2] {
            2 => 0x18,
            3 => 0x07,
            4 => 0xff,
            5 => 0x01,
            _ => 0,
        },
        3 => 0,
        _ => 0xff,
    };
    match (op, i) {
        (_, 0 | 1) => 0xff,
        // nothing but the code
        (0x81 | 0x84 | 0xE7 | 0xE8 | 0xEA | 0x65 | 0x67 | 0x68 | 0x6C | 0xFE | 0x7E, 2 | 3) => 0,
        (0x82 | 0x02 | 0xEB | 0x6A | 0xEC | 0xE6 | 0x64 | 0x66, 3) => 0,
        (0x01, 2) => 0,
        (0x04, 2..=4) => 0,
        (0xE1 | 0x61, 2 | 3 | 4 | 6 | 7) => 0,
        (0xE1, 8..=11) => cap([0xC6, 0xFF, 0x03, 0]),
        (0x61, 8..=11) => cap([0xFF, 0xFF, 0x3F, 0]),
        (0xE3 | 0x63, 2) => if v >= 0x11 { 0xff } else { 0 },
        (0xE3 | 0x63, 3) => 0,
        (0xE3 | 0x63, 6) => 1,
        (0xE3 | 0x63, 7) => if v >= 0x12 { 2 } else { 0 },
        (0x63, 8) => 0xff,
        (0x63, 9..=11) => 0,
        (0xE3, 8) | (0x63, 12) => 0xff,
        (0xE3, 12) | (0x63, 16) => 7,
        (0xE3, 9..=31) | (0x63, 13..=35) => 0,
        (0xE3, 32..) => alg(32),
        (0x63, 36..) => alg(36),
        (0xE4, 6) => if v >= 0x12 { 0xff } else { 0 },
        (0xE4, 7) => 0,
        (0x66, 6 | 7) => 0,
        (0x6B, 5..=7) => if v >= 0x12 { 0 } else { 0xff },
        (0x60, 3) if param(2) & 1 == 0 => 0,
        (0x60, 3) => if v >= 0x12 { 0x3f } else if v == 0x11 { 0x0f } else { 0 },
        _ => 0xff,
    }
}
/// Any message of a kind. params: code, length, what is in it (1: a signature, 2: a measurement summary)
#[no_mangle]
pub extern "C" fn h_msg() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = SpdmContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let c = &mut ctx;
    let v = any_ver();
    negotiate(c, v);
    let op = param(0) as u8;
    c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits_truncate(sym_u32("responder capabilities"));
    c.negotiate_info.req_capabilities_sel = SpdmRequestCapabilityFlags::from_bits_truncate(sym_u32("requester capabilities"));
    c.runtime_info.need_measurement_signature = param(2) & 1 != 0;
    c.runtime_info.need_measurement_summary_hash = param(2) & 2 != 0;
    let n = param(1) as usize;
    let mut b: [u8; 260] = sym("message");
    b[0] = v.get_u8();
    b[1] = op;
    if op == 0x60 {
        // one block at most, of one kind
        assume(b[4] <= 1 && b[6] == 0 && b[7] == 0 && b[12] == 0x81);
    }
    let m = &b[..n];
    let mut rd = Reader::init(m);
    let d = dec(op, c, &mut rd);
    let used = rd.used();
    check(used <= n, "no more is read than there is");
    let Some(d) = d else {
        cover("refused");
        core::mem::forget(ctx);
        return;
    };
    check(used >= 4, "a message has a header");
    // written again, it is the same
    let mut e = [0xEEu8; 300];
    let k = {
        let mut wr = Writer::init(&mut e);
        let k = enc(op, v.get_u8(), &d, c, &mut wr);
        check(k == Some(wr.used()), "the length written is reported");
        wr.used()
    };
    check(k == used, "it takes as many bytes as it was read from");
    for i in 0..used {
        let x = bits(op, v.get_u8(), i, m);
        check(e[i] == m[i] & x, "it reads as it is written");
    }
    // it does not fit in less
    {
        let mut s = [0u8; 300];
        let mut wr = Writer::init(&mut s[..used - 1]);
        check(enc(op, v.get_u8(), &d, c, &mut wr).is_none(), "what does not fit is an error");
    }
    // cut short, it is no message
    let var = op == 0x7F && m[2] == 0xFF;
    if !var {
        let t = used - 1 - choose(3, "cut") as usize;
        if t >= 2 {
            check(dec(op, c, &mut Reader::init(&m[..t])).is_none(), "cut short it is refused");
        }
        // what follows it does not matter
        let mut rd = Reader::init(&m[..used]);
        let again = dec(op, c, &mut rd);
        check(again.is_some() && rd.used() == used, "it ends where it ends");
    }
    cover("message");
    core::mem::forget(ctx);
}

/// MCTP frames. params: payload's length, buffer's length
#[no_mangle]
pub extern "C" fn h_mctp() {
    let mut t = MctpTransportEncap::default();
    let p: [u8; 40] = sym("payload");
    let (l, cap) = (param(0) as usize, param(1) as usize);
    let mut f = [0xEEu8; 64];
    let app = choose(2, "inner") == 1;
    let kind = choose(2, "kind") == 1;
    let r = if app { t.encap_app(&p[..l], &mut f[..cap], kind) } else { t.encap(&p[..l], &mut f[..cap], kind) };
    check(r.is_ok() == (l + 1 <= cap), "it is framed exactly when it fits");
    check(f[cap..].iter().all(|&x| x == 0xEE), "nothing is written outside");
    if let Ok(n) = r {
        check(n == l + 1 && f[0] == if app { if kind { 1 } else { 5 } } else if kind { 6 } else { 5 } && eq(&f[1..n], &p[..l]), "the frame is the type and the payload");
        let mut o = [0xEEu8; 64];
        let oc = choose(48, "output") as usize;
        let r = if app { t.decap_app(&f[..n], &mut o[..oc]) } else { t.decap(&f[..n], &mut o[..oc]) };
        check(r.is_ok() == (l <= oc), "it is taken out exactly when it fits");
        check(r.map_or(true, |x| x == (l, kind) && eq(&o[..l], &p[..l])), "what comes out is what went in");
        cover("framed");
    } else {
        cover("too large");
    }
    // anything received
    let g: [u8; 24] = sym("frame");
    let (gl, oc) = (choose(24, "frame's length") as usize, choose(24, "output") as usize);
    let mut o = [0xEEu8; 32];
    let r = if app { t.decap_app(&g[..gl], &mut o[..oc]) } else { t.decap(&g[..gl], &mut o[..oc]) };
    let good = gl >= 1 && (g[0] == 5 || g[0] == if app { 1 } else { 6 }) && gl - 1 <= oc;
    check(r.is_ok() == good, "a frame of a known type that fits is accepted");
    check(o[oc..].iter().all(|&x| x == 0xEE), "nothing is written outside");
    if let Ok((n, k)) = r {
        check(n == gl - 1 && k == (g[0] != 5) && eq(&o[..n], &g[1..gl]), "what comes out is the payload");
        cover("accepted");
    } else {
        cover("refused");
    }
    check(t.get_sequence_number_count() == 2 && t.get_max_random_count() >= 1, "records carry two bytes of their number");
}

/// PCI DOE data objects made here. params: payload's length, buffer's length
#[no_mangle]
pub extern "C" fn h_doe() {
    let mut t = PciDoeTransportEncap::default();
    let p: [u8; 40] = sym("payload");
    let (l, cap) = (param(0) as usize, param(1) as usize);
    let mut f = [0u8; 64];
    let kind = choose(2, "secured") == 1;
    if choose(2, "inner") == 1 {
        let r = t.encap_app(&p[..l], &mut f[..cap], kind);
        check(r.is_ok() == (l <= cap), "it is framed exactly when it fits");
        if let Ok(n) = r {
            check(n == l && eq(&f[..n], &p[..l]), "inside a record the payload has no header");
        }
        let mut o = [0u8; 64];
        let r = t.decap_app(&p[..l], &mut o[..cap]);
        check(r.is_ok() == (l <= cap), "it is taken out exactly when it fits");
        check(r.map_or(true, |x| x == (l, false) && eq(&o[..l], &p[..l])), "what comes out is what went in");
        check(f[cap..].iter().chain(o[cap..].iter()).all(|&x| x == 0), "nothing is written outside");
        cover("inner");
        return;
    }
    let r = t.encap(&p[..l], &mut f[..cap], kind);
    let a = (l + 3) & !3;
    check(r.is_ok() == (a + 8 <= cap), "it is framed exactly when it fits");
    check(f[cap..].iter().all(|&x| x == 0), "nothing is written outside");
    if let Ok(n) = r {
        check(n == a + 8, "the object is whole double words");
        check(eq(&f[..8], &[1, 0, if kind { 2 } else { 1 }, 0, (n / 4) as u8, 0, 0, 0]), "the header as specified");
        check(eq(&f[8..8 + l], &p[..l]) && f[8 + l..n].iter().all(|&x| x == 0), "the payload, padded");
        let mut o = [0u8; 64];
        let oc = choose(48, "output") as usize;
        let r = t.decap(&f[..n], &mut o[..oc]);
        check(r.is_ok() == (a <= oc), "it is taken out exactly when it fits");
        check(r.map_or(true, |x| x == (a, kind) && eq(&o[..a], &f[8..n])), "what comes out is what went in");
        cover("framed");
    } else {
        cover("too large");
    }
    check(t.get_sequence_number_count() == 0 && t.get_max_random_count() == 0, "records carry no number and no random bytes");
}
/// PCI DOE data objects received. param: length
#[no_mangle]
pub extern "C" fn h_doe_rx() {
    let mut t = PciDoeTransportEncap::default();
    let g: [u8; 40] = sym("object");
    let (gl, oc) = (param(0) as usize, choose(40, "output") as usize);
    let mut o = [0xEEu8; 48];
    let r = t.decap(&g[..gl], &mut o[..oc]);
    check(o[oc..].iter().all(|&x| x == 0xEE), "nothing is written outside");
    let mut good = gl >= 8 && g[0] == 1 && g[1] == 0 && (g[2] == 1 || g[2] == 2);
    let mut n = 0;
    if good {
        let w = le32(&g, 4) & 0x3ffff;
        good = w >= 2 && 4 * w as usize <= gl && 4 * w as usize - 8 <= oc;
        if good {
            n = conc(4 * w as usize - 8);
        }
    }
    check(r.is_ok() == good, "an object of a known type that is all there and fits is accepted");
    if let Ok((k, s)) = r {
        check(k == n && s == (g[2] == 2) && eq(&o[..n], &g[8..8 + n]), "what comes out is the payload");
        cover("accepted");
    } else {
        cover("refused");
    }
}

/// Status codes.
#[no_mangle]
pub extern "C" fn h_status() {
    use spdmlib::error::*;
    let x = sym_u32("status");
    let b = x.to_le_bytes();
    if let Some(s) = SpdmStatus::read_bytes(&b) {
        let mut o = [0u8; 4];
        let n = s.encode(&mut Writer::init(&mut o));
        check(n == Ok(4) && SpdmStatus::read_bytes(&o) == Some(s), "a status reads as it is written");
        check(s.spdm_status_is_success() != s.spdm_status_is_error() && s.spdm_status_is_success() == (x >> 28 == 0), "the severity says whether it is an error");
        cover("status");
    } else {
        cover("refused");
    }
}
