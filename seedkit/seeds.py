PRE = '''#![allow(warnings)]
extern crate alloc;
mod env;
mod sx;
mod aid;
use aid::*;
use env::*;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::protocol::*;
use spdmlib::error::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
'''
S = {}


def seed(id, prop, edits, demo, needs, breaks):
    S[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


R = "spdmlib/src/responder/"
Q = "spdmlib/src/requester/"
C = "spdmlib/src/common/"
M = "spdmlib/src/message/"
PR = "spdmlib/src/protocol/"

seed("v1-sessions-survive-version", "P05", [(C + "mod.rs", """        for s in &mut self.session {
            s.set_default();
        }
    }

    pub fn get_immutable""", """        for s in &mut self.session {
            if s.get_session_state() != SpdmSessionState::SpdmSessionHandshaking {
                s.set_default();
            }
        }
    }

    pub fn get_immutable""")], '''
fn main() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    set_state(&mut ctx.common, 3);
    negotiate(&mut ctx.common, ver(2));
    ctx.common.session[0].setup(0xFFFDFFFD).unwrap();
    ctx.common.session[0].set_session_state(SpdmSessionState::SpdmSessionHandshaking);
    ctx.dispatch_message(&[0x10, 0x84, 0, 0]).unwrap();
    assert_eq!(ctx.common.session[0].get_session_id(), 0);
}
''', "GET_VERSION while a session handshake is under way", "the half-open session survives the restart of the connection")


seed("c1-size-relation", "P06", [(M + "capability.rs", """            if data_transfer_size < 42 || max_spdm_msg_size < data_transfer_size {
                log::error!(
                    "responder: data""", """            if data_transfer_size < 42
                || (max_spdm_msg_size != 0 && max_spdm_msg_size < data_transfer_size)
            {
                log::error!(
                    "responder: data""")], """
fn main() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    ctx.common.config_info.spdm_version = [ver(0), ver(1), ver(2)];
    set_state(&mut ctx.common, 1);
    let mut m = [0u8; 20];
    m[0] = 0x12;
    m[1] = 0xE1;
    m[12] = 64;
    let _ = ctx.dispatch_message(&m);
    assert_eq!(msg(0)[1], 0x7f);
}
""", "GET_CAPABILITIES 1.2 whose MaxSPDMmsgSize is zero", "an inconsistent size pair is accepted")

seed("a1-stale-dhe", "P07", [(R + "algorithm_rsp.rs", """                    SpdmAlg::SpdmAlgoReqAsym(v) => self.common.negotiate_info.req_asym_sel = *v,
""", """                    SpdmAlg::SpdmAlgoReqAsym(v) => self.common.negotiate_info.req_asym_sel |= *v,
"""), (C + "mod.rs", """    pub fn reset_negotiate_info(&mut self) {
        self.negotiate_info = SpdmNegotiateInfo::default();
""", """    pub fn reset_negotiate_info(&mut self) {
        self.negotiate_info = SpdmNegotiateInfo {
            req_asym_sel: self.config_info.req_asym_algo,
            ..Default::default()
        };
""")], """
fn main() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    ctx.common.config_info.spdm_version = [ver(0), ver(1), ver(2)];
    ctx.common.config_info.base_hash_algo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
    ctx.common.config_info.req_asym_algo = SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384 | SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
    let _ = ctx.dispatch_message(&[0x10, 0x84, 0, 0]);
    ctx.common.negotiate_info.spdm_version_sel = ver(1);
    set_state(&mut ctx.common, 2);
    let mut m = [0u8; 36];
    m[0] = 0x11;
    m[1] = 0xE3;
    m[2] = 1;
    m[4] = 36;
    m[12] = 1;
    m[32] = 4;
    m[33] = 0x20;
    m[34] = 0x10;
    let _ = ctx.dispatch_message(&m);
    let r = msg(1);
    assert_eq!(r[1], 0x63);
    assert_eq!(ctx.common.negotiate_info.req_asym_sel, SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256);
}
""", "a requester that offers only a weaker requester-signature algorithm after a GET_VERSION", "the responder selects an algorithm the requester did not offer")

seed("a2-rsapss-priority", "P07", [(PR + "algo.rs", """            SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_4096,
            SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_3072,
            SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_2048,
            SpdmBaseAsymAlgo::TPM_ALG_RSASSA_4096,
""", """            SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_4096,
            SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_2048,
            SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_3072,
            SpdmBaseAsymAlgo::TPM_ALG_RSASSA_4096,
""")], """
fn main() {
    let all = SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_2048 | SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_3072;
    let mut s = all;
    s.prioritize(all);
    assert_eq!(s, SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_3072);
}
""", "both sides support RSAPSS-2048 and RSAPSS-3072 and nothing stronger", "the weaker of two common algorithms is selected")

seed("u1-take-wraps", "P01", [("codec/src/codec.rs", """        if self.left() < len {
            return None;
        }

        let current""", """        if self.offs + len > self.buf.len() {
            return None;
        }

        let current""")], """
fn main() {
    let b = [1u8, 2, 3];
    let mut r = codec::Reader::init(&b);
    assert!(r.take(2).is_some());
    assert!(r.take(usize::MAX).is_none());
    assert_eq!(r.used(), 2);
}
""", "a length close to the largest number, asked for when something has already been read", "the bounds test overflows instead of refusing")

seed("m1-change-indication", "P02", [(M + "measurement.rs", """        if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
            && context.runtime_info.need_measurement_signature
        {
            cnt += (self.slot_id | self.content_changed.bits())""", """        if context.negotiate_info.spdm_version_sel.get_u8() > SpdmVersion::SpdmVersion11.get_u8()
            && context.runtime_info.need_measurement_signature
        {
            cnt += (self.slot_id ^ (self.content_changed.bits() & 0x10))""")], """
use codec::{Reader, Writer};
use spdmlib::common::spdm_codec::SpdmCodec;
use spdmlib::message::*;
fn main() {
    let mut c = rsp(prov());
    connect(&mut c.common, ver(2), 3);
    c.common.runtime_info.need_measurement_signature = true;
    let m = SpdmMeasurementsResponsePayload {
        slot_id: 1,
        content_changed: SpdmMeasurementContentChanged::NO_CHANGE,
        signature: SpdmSignatureStruct { data_size: 64, ..Default::default() },
        ..Default::default()
    };
    let mut b = [0u8; 400];
    let mut wr = Writer::init(&mut b);
    m.spdm_encode(&mut c.common, &mut wr).unwrap();
    let n = wr.used();
    let r = SpdmMeasurementsResponsePayload::spdm_read(&mut c.common, &mut Reader::init(&b[..n])).unwrap();
    assert_eq!(r.content_changed, SpdmMeasurementContentChanged::NO_CHANGE);
    assert_eq!(r.slot_id, 1);
}
""", "a signed MEASUREMENTS 1.2 whose change indication is 'not changed'", "the upper bit of the change indication is lost when it is written")

seed("f1-doe-short-frame", "P04", [("pcidoe_transport/src/header.rs", """        if transport_buffer.len() < header_size + payload_size {
            return Err(SPDM_STATUS_DECAP_FAIL);
        }
""", """        if transport_buffer.len() < payload_size {
            return Err(SPDM_STATUS_DECAP_FAIL);
        }
""")], """
use spdmlib::common::SpdmTransportEncap;
fn main() {
    let f = [1u8, 0, 1, 0, 6, 0, 0, 0, 9, 9, 9, 9, 9, 9, 9, 9];
    let mut o = [0u8; 64];
    let mut t = pcidoe_transport::PciDoeTransportEncap {};
    assert!(t.decap(&f, &mut o).is_err());
}
""", "a DOE object cut short by at most the size of its header", "the frame is taken for complete and the receiver reads beyond it")

seed("r1-padding-in-a", "P08", [(Q + "negotiate_algorithms_req.rs", """                            self.common.append_message_a(send_buffer)?;
                            self.common.append_message_a(&receive_buffer[..used])?;
""", """                            self.common.append_message_a(send_buffer)?;
                            self.common.append_message_a(receive_buffer)?;
"""), (Q + "negotiate_algorithms_req.rs", """                        let used = reader.used();
""", "")], """
fn main() {
    let mut c = req(SpdmProvisionInfo::default());
    let i = &mut c.common.config_info;
    i.base_hash_algo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
    i.base_asym_algo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
    i.measurement_specification = SpdmMeasurementSpecification::DMTF;
    connect(&mut c.common, ver(1), 2);
    let mut m = vec![0u8; 36];
    m[0] = 0x11;
    m[1] = 0x63;
    m[4] = 36;
    m[6] = 1;
    m[8] = 2;
    m[12] = 0x10;
    m[16] = 1;
    let mut a = Vec::new();
    for pad in [0, 4] {
        let mut m = m.clone();
        m.resize(36 + pad, 0);
        c.common.reset_message_a();
        w().rx_n = 0;
        answer(&[&m]);
        c.send_receive_spdm_algorithm().unwrap();
        a.push(c.common.runtime_info.message_a.as_ref().to_vec());
    }
    assert_eq!(a[0], a[1]);
}
""", "an ALGORITHMS response the transport delivers with padding behind it", "the padding enters the transcript, so the proofs of both sides no longer match")

seed("k1-salt-byte", "P16", [(C + "session.rs", """        salt.data[0] ^= (sequence_number & 0xFF) as u8;
        salt.data[1] ^= ((sequence_number >> 8) & 0xFF) as u8;
        salt.data[2] ^= ((sequence_number >> 16) & 0xFF) as u8;
        salt.data[3] ^= ((sequence_number >> 24) & 0xFF) as u8;
        salt.data[4] ^= ((sequence_number >> 32) & 0xFF) as u8;
        salt.data[5] ^= ((sequence_number >> 40) & 0xFF) as u8;
        salt.data[6] ^= ((sequence_number >> 48) & 0xFF) as u8;
        salt.data[7] ^= ((sequence_number >> 56) & 0xFF) as u8;

        let (ret_cipher""", """        for (i, b) in (sequence_number as u32).to_le_bytes().iter().enumerate() {
            salt.data[i] ^= b;
        }
        salt.data[4] ^= ((sequence_number >> 32) & 0xFF) as u8;
        salt.data[5] ^= ((sequence_number >> 32) & 0xFF) as u8;
        salt.data[6] ^= ((sequence_number >> 48) & 0xFF) as u8;
        salt.data[7] ^= ((sequence_number >> 56) & 0xFF) as u8;

        let (ret_cipher""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    let mut b = [0u8; 100];
    let s = &mut c.common.session[0];
    s.encode_spdm_secured_message(&[1], &mut b, false).unwrap();
    let n0 = nth(Op::Enc, 0).b.clone();
    s.set_response_direction_sequence_number(1 << 40);
    s.encode_spdm_secured_message(&[1], &mut b, false).unwrap();
    let n1 = nth(Op::Enc, 1).b.clone();
    let mut x = [0u8; 12];
    for i in 0..12 {
        x[i] = n0[i] ^ n1[i];
    }
    assert_eq!(&x[..8], &(1u64 << 40).to_le_bytes());
}
""", "more than 2^32 records in one direction under one key", "nonces deviate from the standard and collide for numbers 2^40 apart")

seed("k2-rollback-numbers", "P17", [(C + "session.rs", """                self.application_secret.request_direction =
                    self.application_secret_backup.request_direction.clone();
            }
            if update_responder {""", """                let backup = &self.application_secret_backup.request_direction;
                let current = &mut self.application_secret.request_direction;
                current.encryption_key = backup.encryption_key.clone();
                current.salt = backup.salt.clone();
            }
            if update_responder {""")], """
fn main() {
    let mut c = req(SpdmProvisionInfo::default());
    session(&mut c.common, ver(2));
    c.common.session[0].set_request_direction_sequence_number(9);
    c.common.session[0].create_data_secret_update(ver(2), true, false).unwrap();
    c.common.session[0].activate_data_secret_update(ver(2), true, false, false).unwrap();
    assert_eq!(c.common.session[0].get_request_direction_sequence_number(), 9);
}
""", "a key update that is refused after records have been sent under the key", "the key stays but its numbering starts again at zero: nonces are used twice")

seed("k3-psk-export", "P18", [(C + "key_schedule.rs", """        } else {
            secret::psk::master_secret_hkdf_expand(
                spdm_version,
                hash_algo,
                psk_hint.unwrap(),
                bin_str4,
            )?
        };""", """        } else {
            secret::psk::handshake_secret_hkdf_expand(
                spdm_version,
                hash_algo,
                psk_hint.unwrap(),
                bin_str4,
            )?
        };""")], """
fn main() {
    let mut c = req(SpdmProvisionInfo::default());
    connect(&mut c.common, ver(2), 5);
    let s = &mut c.common.session[0];
    s.setup(ID).unwrap();
    s.set_use_psk(true);
    s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_256, SpdmDheAlgo::SECP_256_R1, SpdmAeadAlgo::AES_128_GCM, SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
    s.runtime_info.psk_hint = Some(SpdmPskHintStruct::default());
    s.generate_handshake_secret(ver(2), &SpdmDigestStruct::from(&[1u8; 32][..])).unwrap();
    s.generate_data_secret(ver(2), &SpdmDigestStruct::from(&[2u8; 32][..])).unwrap();
    assert_eq!(count(Op::PskH), 2);
}
""", "a session from a pre-shared key", "the responder's data secret is derived from the handshake secret")

seed("h1-m1m2-without-a", "P27", [(C + "mod.rs", """    pub fn append_message_c(&mut self, new_message: &[u8]) -> SpdmResult {
        #[cfg(not(feature = "hashed-transcript-data"))]
        {
            self.runtime_info
                .message_c
                .append_message(new_message)
                .ok_or(SPDM_STATUS_BUFFER_FULL)?;
        }

        #[cfg(feature = "hashed-transcript-data")]
        {
            if self.runtime_info.digest_context_m1m2.is_none() {
                self.runtime_info.digest_context_m1m2 =
                    crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel);
                if self.runtime_info.digest_context_m1m2.is_none() {
                    return Err(SPDM_STATUS_CRYPTO_ERROR);
                }

                crypto::hash::hash_ctx_update(
                    self.runtime_info.digest_context_m1m2.as_mut().unwrap(),
                    self.runtime_info.message_a.as_ref(),
                )?;
            }
""", """    pub fn append_message_c(&mut self, new_message: &[u8]) -> SpdmResult {
        #[cfg(not(feature = "hashed-transcript-data"))]
        {
            self.runtime_info
                .message_c
                .append_message(new_message)
                .ok_or(SPDM_STATUS_BUFFER_FULL)?;
        }

        #[cfg(feature = "hashed-transcript-data")]
        {
            if self.runtime_info.digest_context_m1m2.is_none() {
                self.runtime_info.digest_context_m1m2 =
                    crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel);
                if self.runtime_info.digest_context_m1m2.is_none() {
                    return Err(SPDM_STATUS_CRYPTO_ERROR);
                }
                // A was hashed when the certificates were exchanged
                if self.runtime_info.get_connection_state().get_u8()
                    < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
                {
                    crypto::hash::hash_ctx_update(
                        self.runtime_info.digest_context_m1m2.as_mut().unwrap(),
                        self.runtime_info.message_a.as_ref(),
                    )?;
                }
            }
""")], """
fn main() {
    let mut c = rsp(prov());
    connect(&mut c.common, ver(2), 6);
    c.common.append_message_a(&[0xEE; 16]).unwrap();
    let mut m = [7u8; 36];
    m[0] = 0x12;
    m[1] = 0x83;
    m[2] = 0;
    m[3] = 0;
    give(&mut c, &m);
    assert_eq!(msg(0)[1], 3);
    let s = &nth(Op::Sign, 0).a;
    let p = preimage(&s[s.len() - 32..]).unwrap();
    assert_eq!(&p[..16], &[0xEE; 16]);
}
""", "a second CHALLENGE without certificates being fetched again", "the signature no longer covers the negotiation")

seed("h2-measure-session-transcript", "P26", [(R + "measurement_rsp.rs", """            self.common.reset_message_m(session_id);
        } else if""", """            self.common.reset_message_m(None);
        } else if""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    let mut m = [7u8; 37];
    m[0] = 0x12;
    m[1] = 0xE0;
    m[2] = 1;
    m[3] = 1;
    m[36] = 0;
    give_sec(&mut c, ID, 0, &m);
    give_sec(&mut c, ID, 1, &m);
    let f = |i| {
        let s = &nth(Op::Sign, i).a;
        preimage(&s[s.len() - 32..]).unwrap().len()
    };
    assert_eq!(f(0), f(1));
}
""", "two signed measurements in one session", "the second signature still covers the first exchange")

seed("x1-clear-one-side", "P12", [(R + "key_exchange_rsp.rs", """            .contains(SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
            && self
                .common
                .negotiate_info
                .rsp_capabilities_sel""", """            .contains(SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
            || self
                .common
                .negotiate_info
                .rsp_capabilities_sel""")], """
fn main() {
    let mut c = rsp(prov());
    connect(&mut c.common, ver(2), 5);
    caps_rsp(&mut c.common, 0x46c2 | 0x8000);
    let mut m = vec![7u8; 40 + 64];
    m[0] = 0x12;
    m[1] = 0xE4;
    m[2] = 0;
    m[3] = 0;
    m.extend_from_slice(&[0, 0]);
    give(&mut c, &m);
    let r = msg(0);
    assert_eq!(r[1], 0x64);
    let n = r.len();
    assert!(by_out(Op::Sign, &r[n - 96..n - 32]).is_some());
    assert!(by_out(Op::Hmac, &r[n - 32..]).is_some());
}
""", "a KEY_EXCHANGE when only one side can do the handshake in the clear", "KEY_EXCHANGE_RSP has its signature in the wrong place and no HMAC")

seed("x2-finish-chooses", "P13", [(R + "finish_rsp.rs", """        if (!mut_auth_attributes.is_empty()
            && !finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED))
            || (mut_auth_attributes.is_empty()
                && finish_request_attributes
                    .contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED))
        {""", """        if mut_auth_attributes.is_empty()
            && finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED)
        {"""), (R + "finish_rsp.rs", """        let is_mut_auth = !mut_auth_attributes.is_empty();
""", """        let is_mut_auth =
            finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED);
""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    c.common.peer_info.peer_cert_chain[0] = Some(chain(0x33, 16));
    let s = &mut c.common.session[0];
    s.set_session_state(SpdmSessionState::SpdmSessionHandshaking);
    s.set_mut_auth_requested(spdmlib::message::SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS);
    c.common.append_message_k(ID, &[1, 2, 3]).unwrap();
    let mut m = [7u8; 36];
    m[0] = 0x12;
    m[1] = 0xE5;
    m[2] = 0;
    m[3] = 0;
    give_sec(&mut c, ID, 0, &m);
    assert!(c.common.session[0].get_session_state() == SpdmSessionState::SpdmSessionHandshaking);
}
""", "a FINISH without signature although mutual authentication was asked for", "the requester leaves out its own authentication")

seed("s1-handshake-heartbeat", "P10", [(R + "context.rs", """                        | SpdmRequestResponseCode::SpdmRequestPskExchange
                        | SpdmRequestResponseCode::SpdmRequestHeartbeat
                        | SpdmRequestResponseCode::SpdmRequestKeyUpdate
                        | SpdmRequestResponseCode::SpdmRequestEndSession => self
                            .handle_error_request(
                                SpdmErrorCode::SpdmErrorUnexpectedRequest,
                                Some(session_id),
                                bytes,
                            ),
""", """                        | SpdmRequestResponseCode::SpdmRequestPskExchange
                        | SpdmRequestResponseCode::SpdmRequestHeartbeat
                        | SpdmRequestResponseCode::SpdmRequestKeyUpdate => self
                            .handle_error_request(
                                SpdmErrorCode::SpdmErrorUnexpectedRequest,
                                Some(session_id),
                                bytes,
                            ),
                        // a requester may give up its handshake
                        SpdmRequestResponseCode::SpdmRequestEndSession => {
                            self.handle_spdm_end_session(session_id, bytes)
                        }
""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(1));
    c.common.session[0].set_session_state(SpdmSessionState::SpdmSessionHandshaking);
    give_sec(&mut c, ID, 0, &[0x11, 0xEC, 0, 0]);
    assert_eq!(plain(msg(0))[1], 0x7F);
}
""", "END_SESSION in a session whose handshake is not finished", "an unauthenticated requester's request is served before the session is established")

seed("s2-digest-downgrades", "P09", [(R + "context.rs", """                if self.common.runtime_info.get_connection_state().get_u8()
                    < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
                {
                    self.common
                        .runtime_info
                        .set_connection_state(SpdmConnectionState::SpdmConnectionAfterCertificate);
                }
""", """                if self.common.runtime_info.get_connection_state()
                    != SpdmConnectionState::SpdmConnectionAfterCertificate
                {
                    self.common
                        .runtime_info
                        .set_connection_state(SpdmConnectionState::SpdmConnectionAfterCertificate);
                }
""")], """
fn main() {
    let mut c = rsp(prov());
    connect(&mut c.common, ver(2), 6);
    give(&mut c, &[0x12, 0x82, 0, 0, 0, 0, 8, 0]);
    assert_eq!(msg(0)[1], 2);
    assert!(c.common.runtime_info.get_connection_state() == SpdmConnectionState::SpdmConnectionAuthenticated);
}
""", "GET_CERTIFICATE after a successful challenge", "an authenticated connection falls back to the state before authentication")

seed("s3-half-id", "P11", [(C + "mod.rs", """            if ((s.get_session_id() & (0xFFFF << shift)) >> shift) as u16 == INVALID_HALF_SESSION_ID
            {
                return Ok(INITIAL_SESSION_ID - index as u16);
            }
""", """            if s.get_session_id() == INVALID_SESSION_ID
                || s.get_session_state() == SpdmSessionState::SpdmSessionNotStarted
            {
                return Ok(INITIAL_SESSION_ID
                    - if is_requester { index } else { index % (MAX_SPDM_SESSION_COUNT - 1) } as u16);
            }
""")], """
fn main() {
    let mut c = rsp(prov());
    connect(&mut c.common, ver(2), 5);
    let n = spdmlib::config::MAX_SPDM_SESSION_COUNT;
    for i in 0..n - 1 {
        keyed(&mut c.common.session[i], 0x10000 * (0xFFFD - i as u32) + 0xFFFD - i as u32, ver(2), 7);
    }
    let id = c.common.get_next_half_session_id(false).unwrap();
    for i in 0..n - 1 {
        assert!((c.common.session[i].get_session_id() >> 16) as u16 != id);
    }
}
""", "all session slots but the last taken", "the last session gets the responder's half of the first one's id")

seed("s4-end-session-error", "P29", [(R + "context.rs", """        // application data has no opcode
        if result.is_ok() && !is_app_message {
            let opcode = send_buffer[1];
            // change state after message is sent.
            if opcode""", """        // application data has no opcode
        if !is_app_message {
            let opcode = send_buffer[1];
            // change state after message is sent.
            if opcode""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    w().io_fail = 0;
    give_sec(&mut c, ID, 0, &[0x12, 0xEC, 0, 0]);
    assert_eq!(c.common.session[0].get_session_id(), ID);
}
""", "END_SESSION whose acknowledgement cannot be sent", "the session is gone at one end only")

# END_SESSION: what is left of the session
S["s4-end-session-keys"] = dict(prop="P29", edits=[(C + "session.rs", """        if self.session_id == session_id {
            self.set_default();
            Ok(())""", """        if self.session_id == session_id {
            // setup() resets the rest
            self.session_id = INVALID_SESSION_ID;
            self.session_state = SpdmSessionState::default();
            Ok(())""")], demo="""
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    give_sec(&mut c, ID, 0, &[0x12, 0xEC, 0, 0]);
    let s = &mut c.common.session[0];
    assert_eq!(s.get_session_id(), 0);
    s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
    let (a, b) = s.export_keys();
    assert!(a.encryption_key.data.iter().all(|x| *x == 0) && b.encryption_key.data.iter().all(|x| *x == 0));
}
""", needs="a session that ends by END_SESSION", breaks="the keys of the ended session stay in memory")
del S["s4-end-session-error"]

seed("q1-record-before-proof", "P14", [(Q + "get_measurements_req.rs", """                            // verify signature
                            if measurement_attributes
                                .contains(""", """                            *spdm_measurement_record_structure = SpdmMeasurementRecordStructure {
                                ..measurements.measurement_record
                            };

                            // verify signature
                            if measurement_attributes
                                .contains("""), (Q + "get_measurements_req.rs", """                            }

                            *spdm_measurement_record_structure = SpdmMeasurementRecordStructure {
                                ..measurements.measurement_record
                            };

                            match""", """                            }

                            match"""), (Q + "get_measurements_req.rs", """Ok(measurements.measurement_record.number_of_blocks)
                                }
                                _ => Ok(measurements.measurement_record.number_of_blocks),""", """Ok(spdm_measurement_record_structure.number_of_blocks)
                                }
                                _ => Ok(spdm_measurement_record_structure.number_of_blocks),""")], """
use spdmlib::message::*;
fn main() {
    let mut c = req(prov());
    connect(&mut c.common, ver(2), 6);
    c.common.peer_info.peer_cert_chain[0] = Some(chain(0x33, 16));
    sx::set("signature verdict", 0);
    let m = cat(&[&[0x12, 0x60, 0, 0x20], &[1], &[11, 0, 0], &[1, 1, 7, 0], &[0x81, 4, 0, 1, 2, 3, 4], &[5; 32], &[0, 0], &[6; 64]]);
    answer(&[&m]);
    let mut n = 0;
    let mut out = SpdmMeasurementRecordStructure::default();
    let r = c.send_receive_spdm_measurement(None, 0, SpdmMeasurementAttributes::SIGNATURE_REQUESTED, SpdmMeasurementOperation::SpdmMeasurementRequestAll, &mut n, &mut out);
    assert!(r.is_err());
    assert_eq!(count(Op::Verify), 1);
    assert_eq!(out.number_of_blocks, 0);
}
""", "a MEASUREMENTS whose signature is wrong", "unproven measurements are in the caller's record")

seed("q2-busy-finish", "P15", [(Q + "finish_req.rs", """        if res.is_err() {
            if let Some(session) = self.common.get_session_via_id(session_id) {
                let _ = session.teardown(session_id);
            }
        }
        res""", """        if let Err(e) = res {
            // the responder may be asked again when it is only busy
            if e != SPDM_STATUS_BUSY_PEER {
                if let Some(session) = self.common.get_session_via_id(session_id) {
                    let _ = session.teardown(session_id);
                }
            }
        }
        res""")], """
fn main() {
    let mut c = req(prov());
    session(&mut c.common, ver(2));
    c.common.session[0].set_session_state(SpdmSessionState::SpdmSessionHandshaking);
    c.common.peer_info.peer_cert_chain[0] = Some(chain(0x33, 16));
    c.common.append_message_k(ID, &[1, 2, 3]).unwrap();
    answer(&[&record(ID, 0, &[0x12, 0x7f, 3, 0])]);
    w().rx_secured = true;
    assert!(c.send_receive_spdm_finish(None, ID).is_err());
    assert_eq!(count(Op::Sent), 1);
    assert_eq!(c.common.session[0].get_session_id(), 0);
}
""", "FINISH answered with ERROR Busy", "the failed session stays behind in its handshake")

seed("b1-session-in-b", "P20", [(R + "certificate_rsp.rs", """        match session_id {
            None => {
                if self.common.append_message_b(writer.used_slice()).is_err() {
                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                }
            }
            Some(_session_id) => {}
        }
""", """        if (session_id.is_none() || offset != 0)
            && self.common.append_message_b(writer.used_slice()).is_err()
        {
            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
        }
""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    set_state(&mut c.common, 6);
    c.common.append_message_b(&[1, 2, 3]).unwrap();
    give_sec(&mut c, ID, 0, &[0x12, 0x82, 0, 0, 2, 0, 8, 0]);
    assert_eq!(plain(msg(0))[1], 2);
    let t = transcript(&c.common.runtime_info.digest_context_m1m2).unwrap();
    assert_eq!(&t[t.len() - 3..], &[1, 2, 3]);
}
""", "the second or a later portion of a chain fetched in a session", "messages of a session get into the transcript CHALLENGE_AUTH signs")

seed("b2-shrinking-chain", "P21", [(Q + "get_certificate_req.rs", """                                && total_size
                                    != offset
""", """                                && total_size
                                    < offset
""")], """
fn main() {
    let mut c = req(prov());
    connect(&mut c.common, ver(2), 5);
    let whole = cat(&[&[4 + 32 + 16, 0, 0, 0], &[9; 48]]);
    let a = cat(&[&[0x12, 2, 0, 0, 20, 0, 60, 0], &whole[..20]]);
    let b = cat(&[&[0x12, 2, 0, 0, 32, 0, 0, 0], &whole[20..]]);
    answer(&[&a, &b]);
    let _ = c.send_receive_spdm_certificate(None, 0);
    assert_eq!(count(Op::Sent), 2);
    assert_eq!(count(Op::ChainV), 0);
}
""", "a chain in more than one portion of which a later one announces a smaller total", "portions that contradict what was announced are put together")

seed("b3-oid-prefix", "P22", [("spdmlib/src/crypto/x509v3.rs", """    if a.len() != b.len() {
        false
    } else {""", """    if a.len() < b.len() {
        false
    } else {""")], """
use spdmlib::crypto::check_cert_chain_format;
fn tlv(t: u8, b: &[u8]) -> Vec<u8> {
    cat(&[&[t, b.len() as u8], b])
}
fn main() {
    let mut oid = vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02];
    oid.push(1);
    let alg = tlv(0x30, &tlv(6, &oid));
    let tbs = tlv(0x30, &cat(&[&[0xa0, 3, 2, 1, 2], &[2, 1, 1], &alg, &[0x30, 0], &[0x30, 0], &[0x30, 0], &[0x30, 0]]));
    let cert = tlv(0x30, &cat(&[&tbs, &alg, &[3, 1, 0]]));
    assert!(check_cert_chain_format(&cert, SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256).is_err());
    oid.pop();
    let alg = tlv(0x30, &tlv(6, &oid));
    let tbs = tlv(0x30, &cat(&[&[0xa0, 3, 2, 1, 2], &[2, 1, 1], &alg, &[0x30, 0], &[0x30, 0], &[0x30, 0], &[0x30, 0]]));
    let cert = tlv(0x30, &cat(&[&tbs, &alg, &[3, 1, 0]]));
    assert!(check_cert_chain_format(&cert, SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256).is_ok());
}
""", "a leaf whose algorithm identifier continues that of the negotiated algorithm", "a certificate with another signature algorithm is accepted")

seed("b4-busy-heartbeat", "P23", [(Q + "heartbeat_req.rs", """                    SpdmRequestResponseCode::SpdmResponseError => self
                        .spdm_handle_error_response_main(
                            Some(session_id),
                            receive_buffer,
                            SpdmRequestResponseCode::SpdmRequestHeartbeat,
                            SpdmRequestResponseCode::SpdmResponseHeartbeatAck,
                        ),
""", """                    SpdmRequestResponseCode::SpdmResponseError => {
                        let status = self.spdm_handle_error_response_main(
                            Some(session_id),
                            receive_buffer,
                            SpdmRequestResponseCode::SpdmRequestHeartbeat,
                            SpdmRequestResponseCode::SpdmResponseHeartbeatAck,
                        );
                        match status {
                            // it is alive
                            Err(SPDM_STATUS_BUSY_PEER) => Ok(()),
                            status => status,
                        }
                    }
""")], """
fn main() {
    let mut c = req(prov());
    session(&mut c.common, ver(2));
    answer(&[&record(ID, 0, &[0x12, 0x7f, 3, 0])]);
    w().rx_secured = true;
    assert!(c.send_receive_spdm_heartbeat(ID).is_err());
}
""", "a HEARTBEAT answered with ERROR Busy", "an operation succeeds without its acknowledgement")

seed("b5-stale-portions", "P25", [(R + "encap_get_certificate.rs", """        self.common.peer_info.peer_cert_chain_temp = None;
        result
    }""", """        if result.is_ok() {
            self.common.peer_info.peer_cert_chain_temp = None;
        }
        result
    }""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    set_state(&mut c.common, 6);
    caps_rsp(&mut c.common, 0x56c2 | 0x100);
    caps_req(&mut c.common, 0x56c2 | 0x100);
    c.common.session[0].set_session_state(SpdmSessionState::SpdmSessionHandshaking);
    sx::set("chain verdict", 0);
    let whole = cat(&[&[4 + 32 + 16, 0, 0, 0], &[9; 48]]);
    give_sec(&mut c, ID, 0, &[0x12, 0xEA, 0, 0]);
    let dig = cat(&[&[0x12, 0xEB, 0, 0, 0x12, 1, 0, 1], &[7; 32]]);
    give_sec(&mut c, ID, 1, &dig);
    let cert = cat(&[&[0x12, 0xEB, 0, 0, 0x12, 2, 0, 0, 52, 0, 0, 0], &whole]);
    give_sec(&mut c, ID, 2, &cert);
    assert_eq!(plain(msg(2))[1], 0x7f);
    give_sec(&mut c, ID, 3, &[0x12, 0xEA, 0, 0]);
    give_sec(&mut c, ID, 4, &dig);
    let p = plain(msg(4));
    let n = p.len();
    assert_eq!(&p[n - 8..n - 4], &[0x12, 0x82, 0, 0]);
    assert_eq!(le16(&p, n - 4), 0);
}
""", "mutual authentication tried again after a chain that was not verified", "the responder asks for the rest of the refused chain")

seed("b6-large-app-reply", "P28", [(R + "context.rs", """        if !is_app_message
            && self.common.negotiate_info.req_data_transfer_size_sel != 0
            && send_buffer""", """        if self.common.negotiate_info.req_data_transfer_size_sel != 0
            && send_buffer""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    c.common.negotiate_info.req_data_transfer_size_sel = 64;
    w().app_reply = vec![0x33; 100];
    w().rx_app = true;
    give_sec(&mut c, ID, 0, &[1, 2, 3]);
    assert_eq!(count(Op::App), 1);
    assert_eq!(plain(msg(0)), vec![0x33; 100]);
}
""", "a reply of application data larger than the requester's transfer size", "the application gets an SPDM ERROR in place of its data")

seed("b7-large-in-session", "P30", [(R + "context.rs", """            && send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize
        {
            let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
            let mut writer = Writer::init(&mut err_buffer);
            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
            return self.send_secured_message(""", """            && send_buffer.len() - 4 > self.common.negotiate_info.req_data_transfer_size_sel as usize
        {
            let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
            let mut writer = Writer::init(&mut err_buffer);
            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
            return self.send_secured_message(""")], """
fn main() {
    let mut c = rsp(prov());
    session(&mut c.common, ver(2));
    set_state(&mut c.common, 6);
    c.common.negotiate_info.req_data_transfer_size_sel = 42;
    give_sec(&mut c, ID, 0, &[0x12, 0x82, 0, 0, 0, 0, 36, 0]);
    assert!(plain(msg(0)).len() <= 42);
}
""", "a response in a session at most four bytes larger than the requester's buffer", "a message larger than the requester can receive is sent")

seed("b8-timeout-in-session", "P31", [(Q + "get_measurements_req.rs", """                self.receive_secured_message(session_id, &mut receive_buffer, true)?
""", """                self.receive_secured_message(session_id, &mut receive_buffer, false)?
""")], """
use spdmlib::message::*;
fn main() {
    let mut c = req(prov());
    session(&mut c.common, ver(2));
    c.common.negotiate_info.rsp_ct_exponent_sel = 25;
    answer(&[&record(ID, 0, &[0x12, 0x7f, 1, 0])]);
    w().rx_secured = true;
    let mut n = 0;
    let mut out = SpdmMeasurementRecordStructure::default();
    let _ = c.send_receive_spdm_measurement(Some(ID), 0, SpdmMeasurementAttributes::empty(), SpdmMeasurementOperation::SpdmMeasurementRequestAll, &mut n, &mut out);
    assert_eq!(w().last_timeout, 1 << 26);
}
""", "measurements in a session of a responder that needs long for cryptography", "the requester gives up early")
