//! Contexts and messages of the demonstrations.
use crate::env::*;
use alloc::vec::Vec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
pub const ID: u32 = 0xFFFD_FFFD;
pub fn rsp(p: SpdmProvisionInfo) -> ResponderContext<'static> {
    install();
    ResponderContext::new(Box::leak(Box::new(Io)), Box::leak(Box::new(Tr)), SpdmConfigInfo::default(), p)
}
pub fn req(p: SpdmProvisionInfo) -> RequesterContext<'static> {
    install();
    w().rand_concrete = true;
    RequesterContext::new(Box::leak(Box::new(Io)), Box::leak(Box::new(Tr)), SpdmConfigInfo::default(), p)
}
/// Chains in slots 0 and 3.
pub fn prov() -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    p.my_cert_chain[0] = Some(chain(0x20, 16));
    p.my_cert_chain[3] = Some(chain(0x60, 20));
    p
}
static mut RX: Vec<Vec<u8>> = Vec::new();
fn rx1(i: usize) -> Option<Vec<u8>> {
    unsafe { RX.get(i).cloned() }
}
/// What the peer answers, in order.
pub fn answer(a: &[&[u8]]) {
    unsafe { RX = a.iter().map(|x| x.to_vec()).collect() };
    w().rx = Some(rx1);
    w().rx_n = 0;
}
/// All capabilities a session needs (both versions of the peer), everything negotiated.
pub fn connect(c: &mut SpdmContext, v: SpdmVersion, st: u8) {
    negotiate(c, v);
    caps_rsp(c, 0x46c2 | 0x4000 | 0x14);
    caps_req(c, 0x46c2 | 0x4000);
    set_state(c, st);
}
pub fn keyed(s: &mut SpdmSession, id: u32, v: SpdmVersion, th: u8) {
    let _ = s.setup(id);
    s.set_use_psk(false);
    s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_256, SpdmDheAlgo::SECP_256_R1, SpdmAeadAlgo::AES_128_GCM, SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
    s.set_transport_param(2, 0);
    let _ = s.set_dhe_secret(v, SpdmDheFinalKeyStruct::from(&[0xD1u8; 32][..]));
    let _ = s.generate_handshake_secret(v, &SpdmDigestStruct::from(&[th; 32][..]));
    let _ = s.generate_data_secret(v, &SpdmDigestStruct::from(&[th ^ 1; 32][..]));
    s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
}
/// An established session with this id in the first place.
pub fn session(c: &mut SpdmContext, v: SpdmVersion) {
    connect(c, v, 5);
    keyed(&mut c.session[0], ID, v, 7);
}
/// A record as the peer would protect it.
pub fn record(id: u32, seq: u64, data: &[u8]) -> Vec<u8> {
    let mut p = cat(&[&[data.len() as u8, (data.len() >> 8) as u8], data]);
    for x in p.iter_mut() {
        *x ^= 0xA5;
    }
    let len = p.len() + 16;
    cat(&[&id.to_le_bytes(), &seq.to_le_bytes()[..2], &[len as u8, (len >> 8) as u8], &p, &[0x77; 16]])
}
/// The message inside a record that was sent.
pub fn plain(r: &[u8]) -> Vec<u8> {
    let p: Vec<u8> = r[8..r.len() - 16].iter().map(|x| x ^ 0xA5).collect();
    let n = le16(&p, 0);
    p[2..2 + n].to_vec()
}
/// Feeds the responder this message in the clear / as a record.
pub fn give(c: &mut ResponderContext, m: &[u8]) {
    answer(&[m]);
    w().rx_secured = false;
    let _ = c.process_message(0, &[0]);
}
pub fn give_sec(c: &mut ResponderContext, id: u32, seq: u64, m: &[u8]) {
    answer(&[&record(id, seq, m)]);
    w().rx_secured = true;
    let _ = c.process_message(0, &[0]);
}
