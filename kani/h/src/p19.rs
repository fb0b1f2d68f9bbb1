//! P19: responder, session set-up with certificates.
//! @level proof
//! @assume DHE, random and signature providers are assumed primitives, recorded; transcripts, session secrets and sending are taken by contract (P06, P08, P11, P14)
use crate::{cx::*, nd, rec::*, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const UNEXPECTED: u8 = 4;
const UNSPECIFIED: u8 = 5;
const UNSUPPORTED: u8 = 7;
const LIMIT: u8 = 0x0A;
const MISMATCH: u8 = 0x41;
const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
const MEAS: SpdmMeasurementHashAlgo = SpdmMeasurementHashAlgo::TPM_ALG_SHA_512;
const SPEC: SpdmMeasurementSpecification = SpdmMeasurementSpecification::DMTF;
/// The session another requester has.
const OTHER: u32 = 0xFFFD_1234;
macro_rules! responder {
    ($r:ident, $n:ident = $state:expr, $v:literal, $clear:literal, $a:ident) => {
        let (mut dev, mut tr) = (Dev, Stages);
        rctx!($r, dev, tr);
        install_hash();
        install_sign();
        install_measurements();
        install_random();
        install_dhe();
        let $n: u8 = $state;
        $r.common.runtime_info.set_connection_state(SpdmConnectionState::read_bytes(&[$n]).unwrap());
        let g = &mut $r.common.negotiate_info;
        g.spdm_version_sel = ver($v);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
        g.dhe_sel = SpdmDheAlgo::SECP_256_R1;
        g.aead_sel = SpdmAeadAlgo::AES_256_GCM;
        g.key_schedule_sel = SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE;
        g.measurement_hash_sel = MEAS;
        g.measurement_specification_sel = SPEC;
        g.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
        g.rsp_capabilities_sel = SpdmResponseCapabilityFlags::KEY_EX_CAP | SpdmResponseCapabilityFlags::MEAS_CAP_SIG;
        g.req_capabilities_sel = SpdmRequestCapabilityFlags::KEY_EX_CAP;
        if $clear {
            g.rsp_capabilities_sel |= SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
            g.req_capabilities_sel |= SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
        }
        $r.common.config_info.heartbeat_period = nd::any();
        $r.common.config_info.secure_spdm_version = [0x10, 0x11];
        let $a: [u8; 9] = nd::any();
        $r.common.provision_info.my_cert_chain[2] = Some(chain(&$a));
        $r.common.session[0].setup(OTHER).unwrap();
    };
}
fn chain(b: &[u8]) -> SpdmCertChainBuffer {
    let mut c = SpdmCertChainBuffer::default();
    c.data_size = b.len() as u16;
    c.data[..b.len()].copy_from_slice(b);
    c
}
/// What is signed: the prefix of SPDM 1.2, the purpose, the hash of the transcript.
fn signed(p: usize, purpose: &[u8; 36], digest: u32) -> u8 {
    match p {
        0..=63 => b"dmtf-spdm-v1.2.*"[p % 16],
        64..=99 => purpose[p - 64],
        _ => bytes_of(digest)[p - 100],
    }
}
const SELECT: [u8; 11] = [1, 0, 0, 0, 0, 0, 4, 0, 1, 0, 0];
/// A request: `kind` of summary, slot; payload and opaque data are taken by contract.
macro_rules! request {
    ($m:ident, $v:literal, $kind:expr, $slot:expr, $id:expr) => {
        let mut $m: [u8; 9] = nd::any();
        $m[..2].copy_from_slice(&[$v, 0xE4]);
        unsafe {
            crate::contracts::KEX_REQ = ($kind, $slot, $id, nd::any());
            crate::contracts::KEX_KEY = nd::any();
        }
    };
}
macro_rules! established {
    ($kind:literal, $clear:literal, $list:literal) => {{
        responder!(r, n = 4, 0x12, $clear, a);
        request!(m, 0x12, $kind, 2, if $list { nd::any() } else { 0x4321 });
        if $list {
            unsafe { VERSIONS = 1 };
        }
        unsafe { crate::contracts::KEX = (if $kind != 0 { 32 } else { 0 }, if $list { 12 } else { 0 }, if $clear { 0 } else { 32 }) };
        let ok = r.handle_spdm_key_exchange(&m).is_ok();
        let id = 0xFFFC_0000 | unsafe { crate::contracts::KEX_REQ.2 } as u32;
        let s = Some(id);
        assert!(call(0).what == RESET_VIA && call(0).arg == 0xE4, "transcripts end");
        assert!(times(SUMMARY) == ($kind != 0) as usize, "a summary if asked for");
        if $kind != 0 {
            let k = call(only(SUMMARY));
            assert!(k.arg == HASH.bits() as usize && k.head[..3] == [SPEC.bits(), MEAS.bits() as u8, $kind], "the summary asked for");
        }
        // the key agreed
        assert!(call(only(DHE)).arg == SpdmDheAlgo::SECP_256_R1.bits() as usize, "a key pair of the negotiated group");
        assert!(is_bytes(only(DHE_FINAL), DHE_FINAL, None, 64, |p| unsafe { crate::contracts::KEX_KEY[p] }), "the requester's key");
        let d = only(DHE_SECRET);
        assert!(is_bytes(d, DHE_SECRET, s, 32, |p| unsafe { SHARED[p] }) && call(d).arg == 0x12, "the shared key");
        assert!(call(only(RAND)).len == 32, "fresh randomness");
        // the response
        let sum = if $kind == 0 { 0 } else { 32 };
        let opq = if $list { 12 } else { 0 };
        let sig = 106 + sum + opq;
        let f = |p: usize| match p {
            0 | 1 => [0x12, 0x64][p],
            2 => r.common.config_info.heartbeat_period,
            3 => 0,
            4 | 5 => [0xFC, 0xFF][p - 4],
            6 => 4,
            7 => 0,
            8..=39 => unsafe { RND[p - 8] },
            40..=103 => unsafe { PUBLIC[p - 40] },
            _ if p < 104 + sum => unsafe { SUM[p - 104] },
            _ if p < 106 + sum => [opq as u8, 0][p - 104 - sum],
            _ if p < sig => if p - 106 - sum < 11 { SELECT[p - 106 - sum] } else { 0x10 },
            _ if p < sig + 64 => unsafe { SIG[p - sig] },
            _ => unsafe { MAC[p - sig - 64] },
        };
        let (q, k, g, h) = (nth(APPEND_K, 0), nth(APPEND_K, 1), nth(APPEND_K, 2), only(HANDSHAKE));
        assert!(is_call(q, APPEND_K, s, &m), "the request, whole");
        assert!(is_bytes(k, APPEND_K, s, sig, f), "the response up to the signature");
        let x = only(SIGN);
        assert!(is_bytes(x, SIGN, None, 132, |p| signed(p, b"\0\0responder-key_exchange_rsp signing", th(2))), "signed for this purpose");
        assert!(call(x).arg == (HASH.bits() << 16 | ASYM.bits()) as usize, "with the negotiated algorithms");
        assert!(is_bytes(g, APPEND_K, s, 64, |p| unsafe { SIG[p] }), "the signature");
        assert!(is_bytes(h, HANDSHAKE, s, 32, |p| bytes_of(th(3))[p]) && call(h).arg == 0x12 && h > d, "handshake secrets of that transcript");
        if $clear {
            assert!(times(GEN_MAC) == 0 && times(APPEND_K) == 3, "no verify data");
        } else {
            let (y, z) = (only(GEN_MAC), nth(APPEND_K, 3));
            assert!(is_bytes(y, GEN_MAC, s, 32, |p| bytes_of(th(3))[p]) && y > h, "verify data of that transcript");
            assert!(is_bytes(z, APPEND_K, s, 32, |p| unsafe { MAC[p] }) && times(APPEND_K) == 4, "verify data");
        }
        let t = only(SENT);
        assert!(is_bytes(t, SENT, None, sig + 64 + if $clear { 0 } else { 32 }, f), "KEY_EXCHANGE_RSP");
        assert!(call(t).ok == ok && t == called() - 1, "outcome reported");
        // the session
        let last = r.common.runtime_info.get_last_session_id();
        assert!(last == if $clear { s } else { None }, "next message in the clear is of this session");
        assert!(r.common.session[0].get_session_id() == OTHER, "other sessions unchanged");
        let c = &r.common.session[1];
        assert!(c.get_session_id() == id && c.get_session_state() == SpdmSessionState::SpdmSessionHandshaking, "handshaking");
        assert!(!c.get_use_psk() && c.get_slot_id() == 2 && c.heartbeat_period == r.common.config_info.heartbeat_period, "as negotiated");
        let p = c.get_crypto_param();
        assert!(p.base_hash_algo == HASH && p.dhe_algo == SpdmDheAlgo::SECP_256_R1 && p.aead_algo == SpdmAeadAlgo::AES_256_GCM, "algorithms");
        assert!(c.get_mut_auth_requested().bits() == 4, "mutual authentication as announced");
        assert!(c.secure_spdm_version_sel == if $list { 0x10 } else { 0x11 }, "secured message version");
        let w = hash_log(0);
        assert!(w.op == Op::All && w.arg == HASH.bits() as usize && w.len == 9 && w.probe == probe(&a), "hash of the chain in that slot");
        let v = c.runtime_info.rsp_cert_hash.as_ref().unwrap();
        assert!(v.data_size == 32 && v.data[0] == bytes_of(digest_tag(0x1000))[0], "hash of the chain");
        assert!(c.runtime_info.req_cert_hash.is_none(), "no requester chain yet");
        assert!(r.common.negotiate_info.termination_policy_set == (unsafe { crate::contracts::KEX_REQ.3 } & 1 == 1), "termination policy");
        cover!(true, "done");
    }};
}
macro_rules! fails {
    ($kind:literal, $at:expr, $hash:literal, $th:literal) => {{
        responder!(r, n = 6, 0x12, false, a);
        unsafe {
            FAIL = $at;
            HASH_FAIL = $hash;
            TH_FAIL = $th;
            crate::contracts::KEX = (if $kind != 0 { 32 } else { 0 }, 0, 32);
        }
        request!(m, 0x12, $kind, 2, 0x4321);
        let ok = r.handle_spdm_key_exchange(&m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, None, 0x12, UNSPECIFIED) || $hash == 0 && sent_error(last, None, 0x12, 1), "ERROR");
        assert!(!ok && times(SENT) == 1, "and nothing else");
        assert!(r.common.session[0].get_session_id() == OTHER && r.common.session[1].get_session_id() == 0, "the session is free again");
        assert!(r.common.session[1].get_session_state() == SpdmSessionState::SpdmSessionNotStarted, "and not started");
        assert!(r.common.runtime_info.get_last_session_id().is_none(), "no session in the clear");
        cover!(true, "done");
    }};
}
macro_rules! refused {
    ($v:literal, $slot:literal, full = $full:literal, $versions:literal, $code:expr) => {{
        responder!(r, n = 4, $v, false, a);
        if $full {
            r.common.session[1].setup(OTHER - 0x1_0000).unwrap();
        }
        unsafe {
            VERSIONS = $versions;
            crate::contracts::KEX = (0, 0, 32);
        }
        request!(m, $v, 0, $slot, 0x4321);
        let ok = r.handle_spdm_key_exchange(&m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, None, $v, $code) && !ok, "ERROR alone");
        assert!(times(SENT) == 1 && times(SIGN) == 0 && times(APPEND_K) == 0, "nothing else sent, signed or recorded");
        assert!(r.common.session[0].get_session_id() == OTHER && r.common.session[1].get_session_id() == if $full { OTHER - 0x1_0000 } else { 0 }, "sessions unchanged");
        cover!(true, "done");
    }};
}
/// No payload: refused before it, or because of it.
macro_rules! gate {
    ($len:literal, $v:literal, $b:expr, $code:expr) => {{
        responder!(r, n = nd::any(), $v, false, a);
        nd::assume(n <= 6);
        let m: [u8; $len] = nd::any();
        if $len > 1 {
            nd::assume($b(m[0]) && m[1] == 0xE4);
        }
        let ok = r.handle_spdm_key_exchange(&m).is_ok();
        let code = if n < 3 { UNEXPECTED } else { $code };
        let last = called() - 1;
        assert!(sent_error(last, None, $v, code) && !ok, "ERROR alone");
        assert!(times(SENT) == 1 && times(SIGN) == 0 && times(APPEND_K) == 0 && times(DHE) == 0, "nothing else sent, signed or recorded");
        assert!(r.common.session[0].get_session_id() == OTHER && r.common.session[1].get_session_id() == 0, "sessions unchanged");
        cover!(n < 3, "too early");
        cover!(n >= 3, "refused");
    }};
}
harnesses! {
    /// @fns: ResponderContext::write_spdm_key_exchange_response, ResponderContext::generate_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn key_exchange() { established!(0, false, true) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response, ResponderContext::generate_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn key_exchange_summary() { established!(0xff, false, false) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response, ResponderContext::generate_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn key_exchange_clear() { established!(1, true, false) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn summary_fails() { fails!(1, (SUMMARY, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn key_pair_fails() { fails!(0, (DHE, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn key_agreement_fails() { fails!(0, (DHE_FINAL, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn chain_hash_fails() { fails!(0, NO, 0, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn secret_fails() { fails!(0, (DHE_SECRET, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn random_fails() { fails!(0, (RAND, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn request_fails() { fails!(0, (APPEND_K, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn response_fails() { fails!(0, (APPEND_K, 1), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response, ResponderContext::generate_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn sign_fails() { fails!(0, (SIGN, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn signature_fails() { fails!(0, (APPEND_K, 2), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn handshake_fails() { fails!(0, (HANDSHAKE, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn mac_fails() { fails!(0, (GEN_MAC, 0), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn verify_data_fails() { fails!(0, (APPEND_K, 3), -1, -1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response, ResponderContext::generate_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn first_hash_fails() { fails!(0, NO, -1, 0) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn second_hash_fails() { fails!(0, NO, -1, 1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn third_hash_fails() { fails!(0, NO, -1, 2) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn refused_full() { refused!(0x12, 2, full = true, 0, LIMIT) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn refused_slot() { refused!(0x12, 1, full = false, 0, 1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn refused_no_slot() { refused!(0x12, 8, full = false, 0, 1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn refused_versions() { refused!(0x12, 2, full = false, 3, 1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_key_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate() { gate!(6, 0x12, |b| b == 0x12, 1) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_key_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate_version() { gate!(6, 0x11, |b| b == 0x10 || b == 0x12, MISMATCH) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_key_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate_10() { gate!(6, 0x10, |b| b == 0x10, UNSUPPORTED) }
    /// @fns: ResponderContext::write_spdm_key_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_key_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate_short() { gate!(1, 0x12, |_| true, 1) }
}
