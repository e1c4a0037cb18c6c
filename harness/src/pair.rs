//! A requester and a responder of this library, connected by a network that may change what passes.
use crate::env::*;
use crate::sx::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
pub static TABLE: &[(&str, extern "C" fn())] = &[("h_pair", h_pair), ("h_pair_auth", h_pair_auth), ("h_pair_conf", h_pair_conf)];

const EST: SpdmSessionState = SpdmSessionState::SpdmSessionEstablished;
fn same_keys(a: &SpdmSessionSecretParam, b: &SpdmSessionSecretParam) -> bool {
    eq(a.encryption_key.as_ref(), b.encryption_key.as_ref()) && eq(a.salt.as_ref(), b.salt.as_ref())
}
/// What happens to one of the messages; they are counted in both directions.
#[derive(Clone, Copy, PartialEq)]
enum Evil {
    None,
    /// one byte becomes any other
    Byte,
    /// some bytes become anything
    Bytes(usize, usize),
    Cut,
    Lost,
    /// the one before in the same direction instead
    Again,
    /// the responder gets another request first, nobody its answer
    Extra(usize),
}
struct Net {
    rsp: *mut ResponderContext<'static>,
    to_rsp: Vec<u8>,
    to_req: Option<Vec<u8>>,
    old: [Vec<u8>; 2],
    n: usize,
    evil: [(Evil, usize); 4],
    own: bool,
    /// the message has been changed
    hit: bool,
}
static mut NET: Net = Net { rsp: core::ptr::null_mut(), to_rsp: Vec::new(), to_req: None, old: [Vec::new(), Vec::new()], n: 0, evil: [(Evil::None, 0); 4], own: false, hit: false };
fn net() -> &'static mut Net {
    unsafe { &mut NET }
}
/// The message as it arrives.
fn pass(m: Vec<u8>, dir: usize) -> Option<Vec<u8>> {
    let g = net();
    if g.own {
        return None;
    }
    let i = g.n;
    g.n += 1;
    let was = core::mem::replace(&mut g.old[dir], m.clone());
    let mut m = m;
    for k in 0..4 {
        if g.evil[k].1 == i && g.evil[k].0 != Evil::None {
            m = change(m, &was, g.evil[k].0)?;
            g.hit = true;
        }
    }
    Some(m)
}
fn change(mut m: Vec<u8>, was: &[u8], evil: Evil) -> Option<Vec<u8>> {
    match evil {
        Evil::None => {}
        Evil::Byte => {
            let k = choose(m.len() as u8, "changed byte") as usize;
            let d = sym_u8("change");
            assume(d != 0);
            m[k] ^= d;
        }
        Evil::Bytes(lo, hi) => {
            let d: [u8; 48] = sym("changes");
            let hi = hi.min(m.len());
            let mut any = 0;
            for k in lo..hi {
                m[k] ^= d[k - lo];
                any |= d[k - lo];
            }
            assume(any != 0);
        }
        Evil::Cut => {
            let k = choose(m.len() as u8, "length") as usize;
            m.truncate(k);
        }
        Evil::Lost => {
            net().hit = true;
            return None;
        }
        Evil::Again => {
            if was.is_empty() {
                end();
            }
            m = was.to_vec();
        }
        Evil::Extra(n) => {
            let d: [u8; 16] = sym("another request");
            net().own = true;
            deliver(cat(&[&[5], &d[..n]]));
            net().own = false;
        }
    }
    Some(m)
}
fn deliver(m: Vec<u8>) {
    net().to_rsp = m;
    w().party = 1;
    let _ = unsafe { &mut *net().rsp }.process_message(0, &[]);
    w().party = 0;
}
/// The requester's device: what it sends is worked on by the responder at once.
struct Near;
impl SpdmDeviceIo for Near {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        if let Some(m) = pass(b.to_vec(), 0) {
            deliver(m);
        }
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], _t: usize) -> Result<usize, usize> {
        match net().to_req.take() {
            None => Err(0),
            Some(m) => {
                b[..m.len()].copy_from_slice(&m);
                Ok(m.len())
            }
        }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
struct Far;
impl SpdmDeviceIo for Far {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        if let Some(m) = pass(b.to_vec(), 1) {
            net().to_req = Some(m);
        }
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], _t: usize) -> Result<usize, usize> {
        let m = &net().to_rsp;
        b[..m.len()].copy_from_slice(m);
        Ok(m.len())
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
const ROOTS: [u8; 2] = [0x51, 0x61];
fn certs(party: usize) -> Vec<u8> {
    cat(&[&[ROOTS[party]; 4], &[0x10 + party as u8; 5]])
}
fn prov(party: usize) -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    let c = certs(party);
    let mut d = SpdmCertChainData { data_size: c.len() as u16, ..Default::default() };
    d.data[..c.len()].copy_from_slice(&c);
    p.my_cert_chain_data[0] = Some(d);
    let mut r = SpdmCertChainData { data_size: 4, ..Default::default() };
    r.data[..4].copy_from_slice(&[ROOTS[1 - party]; 4]);
    p.peer_root_cert_data = Some(r);
    p
}
const KEX: u8 = 0;
const PSK: u8 = 1;
const PSK_PLAIN: u8 = 2;
/// Configuration of both sides.
fn config(kind: u8, mutual: bool, clear: bool) -> SpdmConfigInfo {
    let mut c = SpdmConfigInfo::default();
    c.spdm_version = [ver(0), ver(1), ver(2)];
    let m = if mutual { 0x1100 } else { 0 } | if clear { 0x8000 } else { 0 };
    c.req_capabilities = SpdmRequestCapabilityFlags::from_bits(0x42c2 | 0x2004 | m | if kind == KEX { 0 } else { 0x400 }).unwrap();
    c.rsp_capabilities = SpdmResponseCapabilityFlags::from_bits(0x42c2 | 0x2034 | m | [0, 0x800, 0x400][kind as usize]).unwrap();
    c.req_ct_exponent = 3;
    c.rsp_ct_exponent = 4;
    c.measurement_specification = SpdmMeasurementSpecification::DMTF;
    c.measurement_hash_algo = SpdmMeasurementHashAlgo::TPM_ALG_SHA_256;
    c.base_hash_algo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
    c.base_asym_algo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256 | SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384;
    c.dhe_algo = SpdmDheAlgo::SECP_256_R1 | SpdmDheAlgo::SECP_384_R1;
    c.aead_algo = SpdmAeadAlgo::AES_128_GCM | SpdmAeadAlgo::AES_256_GCM;
    c.req_asym_algo = SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256 | SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384;
    c.key_schedule_algo = SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE;
    c.opaque_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
    c.data_transfer_size = 400;
    c.max_spdm_msg_size = 400;
    c.heartbeat_period = 7;
    c.secure_spdm_version = [0x10, 0x11];
    c
}
fn world() {
    install();
    let w = w();
    w.nobody_forges = true;
    w.aead_ideal = true;
    w.root_len = 4;
    w.leaf_off = 4;
    w.rand_concrete = true;
    w.app_reply = cat(&[&[0x66, 0x67, 0x68]]);
    w.certs.push((0, certs(0)));
    w.certs.push((1, certs(1)));
}
/// params: what happens, to which message, where in it; and the same again
fn evil() {
    for k in 0..4 {
        let (at, lo, hi) = (param(4 * k + 2) as usize, param(4 * k + 3) as usize, param(4 * k + 4) as usize);
        let e = match param(4 * k + 1) {
            0 => Evil::None,
            1 => Evil::Byte,
            2 => Evil::Bytes(lo, hi),
            3 => Evil::Cut,
            4 => Evil::Lost,
            5 => Evil::Again,
            _ => Evil::Extra(lo),
        };
        net().evil[k as usize] = (e, at);
    }
}
/// Both sides negotiated the same.
fn same_terms(a: &SpdmContext, b: &SpdmContext) -> bool {
    let (a, b) = (&a.negotiate_info, &b.negotiate_info);
    a.spdm_version_sel == b.spdm_version_sel
        && a.req_capabilities_sel.bits() == b.req_capabilities_sel.bits()
        && a.rsp_capabilities_sel.bits() == b.rsp_capabilities_sel.bits()
        && a.base_hash_sel.bits() == b.base_hash_sel.bits()
        && a.base_asym_sel.bits() == b.base_asym_sel.bits()
        && a.dhe_sel.bits() == b.dhe_sel.bits()
        && a.aead_sel.bits() == b.aead_sel.bits()
        && a.req_asym_sel.bits() == b.req_asym_sel.bits()
        && a.key_schedule_sel.bits() == b.key_schedule_sel.bits()
        && a.measurement_specification_sel.bits() == b.measurement_specification_sel.bits()
        && a.measurement_hash_sel.bits() == b.measurement_hash_sel.bits()
        && a.opaque_data_support.bits() == b.opaque_data_support.bits()
        && a.req_ct_exponent_sel == b.req_ct_exponent_sel
        && a.rsp_ct_exponent_sel == b.rsp_ct_exponent_sel
        && a.req_data_transfer_size_sel == b.req_data_transfer_size_sel
        && a.rsp_data_transfer_size_sel == b.rsp_data_transfer_size_sel
        && a.req_max_spdm_msg_size_sel == b.req_max_spdm_msg_size_sel
        && a.rsp_max_spdm_msg_size_sel == b.rsp_max_spdm_msg_size_sel
}
/// What both sides offered and would choose undisturbed.
fn best(c: &SpdmContext) -> bool {
    let n = &c.negotiate_info;
    n.spdm_version_sel == ver(2) && n.base_asym_sel == SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384 && n.dhe_sel == SpdmDheAlgo::SECP_384_R1 && n.aead_sel == SpdmAeadAlgo::AES_256_GCM
}
fn est(c: &SpdmContext) -> usize {
    c.session.iter().filter(|s| s.get_session_id() != 0 && s.get_session_state() == EST).count()
}
fn agree(q: &mut SpdmContext, r: &mut SpdmContext, id: u32) {
    check(same_terms(q, r) && best(q), "both sides have negotiated the same, and the best there is");
    same_session(q, r, id);
}
fn same_session(q: &mut SpdmContext, r: &mut SpdmContext, id: u32) {
    let a = q.get_session_via_id(id);
    let b = r.get_session_via_id(id);
    check(a.is_some() && b.is_some(), "both sides have the session");
    let (a, b) = (a.unwrap(), b.unwrap());
    check(a.get_session_state() == EST && b.get_session_state() == EST, "it is established on both sides");
    let (x, y) = (a.export_keys(), b.export_keys());
    check(same_keys(&x.0, &y.0) && same_keys(&x.1, &y.1), "both sides have the same keys");
    check(x.0.sequence_number == y.0.sequence_number && x.1.sequence_number == y.1.sequence_number, "and count records the same");
    check(eq(x.0.encryption_key.as_ref(), y.0.encryption_key.as_ref()) && !eq(x.0.encryption_key.as_ref(), x.1.encryption_key.as_ref()), "each direction has its own key");
    check(a.heartbeat_period == b.heartbeat_period, "and the same heartbeat period");
    let (ea, eb) = (a.secure_spdm_version_sel, b.secure_spdm_version_sel);
    check(ea == eb, "and the same secured message version");
}

/// A session from connecting to its end.
/// params: kind + 4 (mutual authentication) + 8 (handshake in the clear) + 16 (DOE), what happens, to which message, range
#[no_mangle]
pub extern "C" fn h_pair() {
    world();
    evil();
    let kind = param(0) as u8 & 3;
    let (cq, cr) = (config(kind, param(0) & 4 != 0, param(0) & 8 != 0), config(kind, param(0) & 4 != 0, param(0) & 8 != 0));
    let (mut near, mut far) = (Near, Far);
    let (mut m0, mut m1) = (mctp_transport::MctpTransportEncap {}, mctp_transport::MctpTransportEncap {});
    let (mut d0, mut d1) = (pcidoe_transport::PciDoeTransportEncap {}, pcidoe_transport::PciDoeTransportEncap {});
    let doe = param(0) & 16 != 0;
    let t0: &mut dyn SpdmTransportEncap = if doe { &mut d0 } else { &mut m0 };
    let t1: &mut dyn SpdmTransportEncap = if doe { &mut d1 } else { &mut m1 };
    let mut rsp = ResponderContext::new(&mut far, t1, cr, prov(1));
    let mut req = RequesterContext::new(&mut near, t0, cq, prov(0));
    net().rsp = &mut rsp as *mut _ as usize as *mut ResponderContext<'static>;
    let all = SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll;
    let up = match req.init_connection() {
        Err(_) => None,
        Ok(()) => {
            let known = kind != KEX || req.send_receive_spdm_digest(None).is_ok() && req.send_receive_spdm_certificate(None, 0).is_ok();
            if known {
                req.start_session(kind != KEX, 0, all).ok()
            } else {
                None
            }
        }
    };
    match up {
        None => {
            check(net().hit, "undisturbed they connect");
            check(est(&req.common) == 0, "a failed handshake leaves no session at the requester");
            if est(&rsp.common) != 0 && kind != PSK_PLAIN {
                // the responder may not know that its last answer got lost
                check(same_terms(&req.common, &rsp.common) && best(&rsp.common), "the responder's session is with the requester, as both negotiated");
                cover("half");
            }
            cover("no session");
            core::mem::forget((req, rsp));
            return;
        }
        Some(id) => agree(&mut req.common, &mut rsp.common, id),
    }
    let id = up.unwrap();
    if net().hit {
        // a change that did not matter: what follows is as without it
        cover("session all the same");
        core::mem::forget((req, rsp));
        return;
    }
    // the session is used; a disturbed record is an error for who gets it
    let (d0, d1): ([u8; 5], [u8; 4]) = (sym("application data"), sym("vendor data"));
    let mark = w().log.len();
    let mut buf = [0u8; 400];
    // the DOE transport does not carry application data
    let mut r = if doe { Ok(0) } else { req.send_secured_message(id, &d0, true).map(|_| 0).and_then(|_| req.receive_secured_message(id, &mut buf, false)) };
    let got = |op: Op, d: &[u8]| w().log[mark..].iter().all(|e| e.op != op || eq(&e.a, d));
    let n = |op: Op| w().log[mark..].iter().filter(|e| e.op == op).count();
    check(got(Op::App, &d0) && n(Op::App) <= 1, "only the data sent arrives, and once");
    if let (Ok(k), false) = (r, doe) {
        check(eq(&buf[..k], &w().app_reply) && n(Op::App) == 1, "the reply is the handler's");
    }
    check(net().hit || r.is_ok(), "application data is answered");
    let mut done = 1;
    if r.is_ok() {
        let mut pl = VendorDefinedReqPayloadStruct { req_length: 4, vendor_defined_req_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE] };
        pl.vendor_defined_req_payload[..4].copy_from_slice(&d1);
        let v = req.send_spdm_vendor_defined_request(Some(id), RegistryOrStandardsBodyID::PCISIG, VendorIDStruct { len: 2, vendor_id: [7; 255] }, pl);
        check(got(Op::Vendor, &d1) && n(Op::Vendor) <= 1, "only the vendor's data sent arrives, and once");
        if let Ok(v) = &v {
            check(eq(&v.vendor_defined_rsp_payload[..conc(v.rsp_length as usize)], &w().app_reply), "the vendor's reply is the handler's");
        }
        check(net().hit || v.is_ok(), "vendor-defined requests are answered");
        r = v.map(|_| 0);
        done = 2;
    }
    if r.is_ok() {
        let o = if choose(2, "keys") == 0 { SpdmKeyUpdateOperation::SpdmUpdateSingleKey } else { SpdmKeyUpdateOperation::SpdmUpdateAllKeys };
        r = req.send_receive_spdm_key_update(id, o).map(|_| 0);
        check(net().hit || r.is_ok(), "keys can be updated");
        if r.is_ok() {
            agree(&mut req.common, &mut rsp.common, id);
        }
        done = 3;
    }
    if r.is_ok() {
        r = req.send_receive_spdm_heartbeat(id).map(|_| 0);
        check(net().hit || r.is_ok(), "heartbeats are answered");
        done = 4;
    }
    if r.is_ok() && kind == KEX {
        let (mut total, mut rec) = (0, SpdmMeasurementRecordStructure::default());
        r = req.send_receive_spdm_measurement(Some(id), 0, SpdmMeasurementAttributes::SIGNATURE_REQUESTED, SpdmMeasurementOperation::SpdmMeasurementRequestAll, &mut total, &mut rec).map(|_| 0);
        check(net().hit || r.is_ok(), "measurements are answered in the session");
        if r.is_ok() {
            let e = w().log.iter().rev().find(|e| e.op == Op::Meas && !e.out.is_empty()).unwrap();
            check(eq(&rec.measurement_record_data[..conc(rec.measurement_record_length.get() as usize)], &e.out), "the measurements are those of the device");
        }
        done = 5;
    }
    if r.is_ok() {
        agree(&mut req.common, &mut rsp.common, id);
        r = req.end_session(id).map(|_| 0);
        check(net().hit || r.is_ok(), "the session can be ended");
        if r.is_ok() {
            check(est(&req.common) == 0 && est(&rsp.common) == 0, "it has ended on both sides");
            cover("ended");
        }
        done = 6;
    }
    check(!r.is_ok() || done == 6, "all is done");
    let extra = net().evil.iter().any(|e| matches!(e.0, Evil::Extra(_)));
    check(r.is_err() || !net().hit || extra, "a disturbed record is not accepted");
    cover("used");
    core::mem::forget((req, rsp));
}

/// Authentication without a session. params: as above
#[no_mangle]
pub extern "C" fn h_pair_auth() {
    world();
    evil();
    let (cq, cr) = (config(KEX, false, false), config(KEX, false, false));
    let (mut near, mut far) = (Near, Far);
    let (mut m0, mut m1) = (mctp_transport::MctpTransportEncap {}, mctp_transport::MctpTransportEncap {});
    let mut rsp = ResponderContext::new(&mut far, &mut m1, cr, prov(1));
    let mut req = RequesterContext::new(&mut near, &mut m0, cq, prov(0));
    net().rsp = &mut rsp as *mut _ as usize as *mut ResponderContext<'static>;
    let ok = req.init_connection().is_ok() && req.send_receive_spdm_digest(None).is_ok() && req.send_receive_spdm_certificate(None, 0).is_ok();
    let all = SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll;
    let proven = ok && (param(0) != 0 || req.send_receive_spdm_challenge(0, all).is_ok());
    check(proven || net().hit, "undisturbed the responder proves itself");
    if proven && param(0) == 0 {
        check(same_terms(&req.common, &rsp.common) && best(&req.common), "what was negotiated is what both sides wanted");
        let c = req.common.peer_info.peer_cert_chain[0].as_ref();
        check(c.map_or(false, |c| eq(&c.as_ref()[4 + H..], &certs(1))), "with the responder's certificates");
    }
    if proven {
        let one = choose(2, "one") == 1;
        let op = if one { SpdmMeasurementOperation::Unknown(2) } else { SpdmMeasurementOperation::SpdmMeasurementRequestAll };
        let (mut total, mut rec) = (0, SpdmMeasurementRecordStructure::default());
        let first = choose(2, "unsigned first") == 1;
        let mut m = Ok(());
        if first {
            m = req.send_receive_spdm_measurement(None, 0, SpdmMeasurementAttributes::empty(), SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber, &mut total, &mut rec);
            check(m.is_ok() || net().hit, "undisturbed the number of measurements is given");
        }
        if m.is_ok() {
            m = req.send_receive_spdm_measurement(None, 0, SpdmMeasurementAttributes::SIGNATURE_REQUESTED, op, &mut total, &mut rec);
            check(m.is_ok() || net().hit, "undisturbed measurements are given");
            if m.is_ok() {
                check(same_terms(&req.common, &rsp.common) && best(&req.common), "what was negotiated is what both sides wanted");
                let e = w().log.iter().rev().find(|e| e.op == Op::Meas && !e.out.is_empty()).unwrap();
                check(eq(&rec.measurement_record_data[..conc(rec.measurement_record_length.get() as usize)], &e.out), "the measurements are those of the device");
                cover("measured");
            }
        }
    }
    cover("done");
    core::mem::forget((req, rsp));
}

/// Some of the values, not none unless wanted.
fn some<T: Copy>(all: &[T], name: &str) -> Vec<T> {
    let m = choose(1 << all.len(), name);
    all.iter().enumerate().filter(|(i, _)| m & 1 << i != 0).map(|(_, a)| *a).collect()
}
/// The first of a list in both.
fn common<T: Copy + PartialEq>(all: &[T], a: &[T], b: &[T]) -> Option<T> {
    all.iter().find(|x| a.contains(x) && b.contains(x)).copied()
}
/// What both sides support is found, and a session can be had when there is enough of it.
/// params: kind + 4 (mutual authentication) + 8 (handshake in the clear), which choices are open
#[no_mangle]
pub extern "C" fn h_pair_conf() {
    world();
    let kind = param(0) as u8 & 3;
    let open = param(1);
    let (mut cq, mut cr) = (config(kind, param(0) & 4 != 0, param(0) & 8 != 0), config(kind, param(0) & 4 != 0, param(0) & 8 != 0));
    macro_rules! pick {
        ($bit:expr, $field:ident, $all:expr) => {{
            let all = $all;
            if open & $bit != 0 {
                let (a, b) = (some(&all, concat!("requester ", stringify!($field))), some(&all, concat!("responder ", stringify!($field))));
                cq.$field = Default::default();
                cr.$field = Default::default();
                for x in &a {
                    cq.$field |= *x;
                }
                for x in &b {
                    cr.$field |= *x;
                }
                common(&all, &a, &b)
            } else {
                let both = cq.$field & cr.$field;
                all.iter().find(|x| both.contains(**x)).copied()
            }
        }};
    }
    // strongest first
    let hash = pick!(1, base_hash_algo, [SpdmBaseHashAlgo::TPM_ALG_SHA_384, SpdmBaseHashAlgo::TPM_ALG_SHA_256]);
    let asym = pick!(2, base_asym_algo, [SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384, SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256]);
    let dhe = pick!(4, dhe_algo, [SpdmDheAlgo::SECP_384_R1, SpdmDheAlgo::SECP_256_R1]);
    let aead = pick!(8, aead_algo, [SpdmAeadAlgo::AES_256_GCM, SpdmAeadAlgo::AES_128_GCM, SpdmAeadAlgo::CHACHA20_POLY1305]);
    let req_asym = pick!(16, req_asym_algo, [SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384, SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256]);
    let (mut version, mut signed) = (Some(ver(2)), true);
    if open & 32 != 0 {
        let all = [ver(2), ver(1)];
        let (a, b) = (some(&all, "requester versions"), some(&all, "responder versions"));
        assume(!a.is_empty() && !b.is_empty());
        for i in 0..MAX_SPDM_VERSION_COUNT {
            cq.spdm_version[i] = a[i.min(a.len() - 1)];
            cr.spdm_version[i] = b[i.min(b.len() - 1)];
        }
        version = common(&all, &a, &b);
        // this build signs only with version 1.2
        signed = cfg!(feature = "raw") || version == Some(ver(2));
    }
    // (capabilities of one side only change nothing)
    let bits = [0x2000u32, 0x4000, 0x8000];
    let (mut hb, mut ku) = (true, true);
    if open & 64 != 0 {
        let (a, b) = (some(&bits, "requester can"), some(&bits, "responder can"));
        let all: u32 = bits.iter().fold(0, |x, y| x | y);
        let set = |was: u32, s: &[u32]| s.iter().fold(was & !all, |x, y| x | y);
        let (q, r) = (set(cq.req_capabilities.bits(), &a), set(cr.rsp_capabilities.bits(), &b));
        cq.req_capabilities = SpdmRequestCapabilityFlags::from_bits(q).unwrap();
        cr.rsp_capabilities = SpdmResponseCapabilityFlags::from_bits(r).unwrap();
        hb = q & r & 0x2000 != 0;
        ku = q & r & 0x4000 != 0;
    }
    let mut sv = true;
    if open & 128 != 0 {
        cr.heartbeat_period = sym_u8("heartbeat period");
        let all = [0x10u8, 0x11];
        let (a, b) = (some(&all, "requester secured versions"), some(&all, "responder secured versions"));
        assume(!a.is_empty() && !b.is_empty());
        for i in 0..2 {
            cq.secure_spdm_version[i] = a[i.min(a.len() - 1)];
            cr.secure_spdm_version[i] = b[i.min(b.len() - 1)];
        }
        sv = common(&all, &a, &b).is_some();
    }
    let mutual = param(0) & 4 != 0;
    let (mut near, mut far) = (Near, Far);
    let (mut m0, mut m1) = (mctp_transport::MctpTransportEncap {}, mctp_transport::MctpTransportEncap {});
    let mut rsp = ResponderContext::new(&mut far, &mut m1, cr, prov(1));
    let mut req = RequesterContext::new(&mut near, &mut m0, cq, prov(0));
    net().rsp = &mut rsp as *mut _ as usize as *mut ResponderContext<'static>;
    let met = req.init_connection().is_ok();
    if version.is_none() {
        check(!met, "without a common version there is no connection");
        cover("strangers");
        core::mem::forget((req, rsp));
        return;
    }
    let enough = if kind == KEX {
        signed && hash.is_some() && asym.is_some() && dhe.is_some() && aead.is_some() && (!mutual || req_asym.is_some())
    } else {
        hash.is_some() && aead.is_some()
    };
    if met {
        let n = &req.common.negotiate_info;
        check(same_terms(&req.common, &rsp.common), "both sides negotiated the same");
        check(n.spdm_version_sel == version.unwrap(), "the latest version both know");
        check(n.base_hash_sel == hash.unwrap_or(SpdmBaseHashAlgo::empty()), "the best hash both know");
        check(n.base_asym_sel == asym.unwrap_or(SpdmBaseAsymAlgo::empty()), "the best signature both know");
        check(n.dhe_sel == dhe.unwrap_or(SpdmDheAlgo::empty()), "the best key exchange both know");
        check(n.aead_sel == aead.unwrap_or(SpdmAeadAlgo::empty()), "the best cipher both know");
        check(n.req_asym_sel == req_asym.unwrap_or(SpdmReqAsymAlgo::empty()), "the best signature of the requester both know");
    }
    check(met || !enough, "with enough in common they connect");
    let all = SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll;
    let up = if !met || kind == KEX && !(req.send_receive_spdm_digest(None).is_ok() && req.send_receive_spdm_certificate(None, 0).is_ok()) {
        None
    } else {
        req.start_session(kind != KEX, 0, all).ok()
    };
    check(up.is_some() || !(enough && sv), "with enough in common there is a session");
    match up {
        None => {
            check(est(&req.common) == 0 && est(&rsp.common) == 0, "without enough in common there is none on either side");
            cover("no session");
        }
        Some(id) => {
            check(enough, "a session needs all its algorithms");
            same_session(&mut req.common, &mut rsp.common, id);
            if hb {
                check(req.send_receive_spdm_heartbeat(id).is_ok(), "heartbeats are answered");
            }
            if ku {
                check(req.send_receive_spdm_key_update(id, SpdmKeyUpdateOperation::SpdmUpdateAllKeys).is_ok(), "keys can be updated");
                same_session(&mut req.common, &mut rsp.common, id);
            }
            check(req.end_session(id).is_ok(), "the session can be ended");
            check(est(&req.common) == 0 && est(&rsp.common) == 0, "it has ended on both sides");
            cover("ended");
        }
    }
    core::mem::forget((req, rsp));
}
