//! P21: responder, session set-up with a pre-shared key.
//! @level proof
//! @assume random and measurement providers are assumed primitives, recorded; message codecs, transcripts, session secrets and sending are taken by contract (P06, P08, P11, P14, P23)
use crate::{contracts::*, cx::*, nd, rec::*, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const UNEXPECTED: u8 = 4;
const UNSPECIFIED: u8 = 5;
const DECRYPT: u8 = 6;
const UNSUPPORTED: u8 = 7;
const LIMIT: u8 = 0x0A;
const MISMATCH: u8 = 0x41;
const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const MEAS: SpdmMeasurementHashAlgo = SpdmMeasurementHashAlgo::TPM_ALG_SHA_512;
const SPEC: SpdmMeasurementSpecification = SpdmMeasurementSpecification::DMTF;
const OTHER: u32 = 0xFFFD_1234;
const ID: u32 = 0xFFFC_4321;
const S: Option<u32> = Some(ID);
macro_rules! responder {
    ($r:ident, $n:ident = $state:expr, $v:literal, $context:literal) => {
        let (mut dev, mut tr) = (Dev, Stages);
        rctx!($r, dev, tr);
        install_measurements();
        install_random();
        unsafe { MAC = nd::any() };
        let $n: u8 = $state;
        $r.common.runtime_info.set_connection_state(SpdmConnectionState::read_bytes(&[$n]).unwrap());
        let g = &mut $r.common.negotiate_info;
        g.spdm_version_sel = ver($v);
        g.base_hash_sel = HASH;
        g.aead_sel = SpdmAeadAlgo::AES_256_GCM;
        g.key_schedule_sel = SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE;
        g.measurement_hash_sel = MEAS;
        g.measurement_specification_sel = SPEC;
        g.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
        g.rsp_capabilities_sel = SpdmResponseCapabilityFlags::MEAS_CAP_SIG
            | if $context { SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT } else { SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT };
        g.req_capabilities_sel = SpdmRequestCapabilityFlags::PSK_CAP;
        $r.common.config_info.heartbeat_period = nd::any();
        $r.common.config_info.secure_spdm_version = [0x10, 0x11];
        $r.common.session[0].setup(OTHER).unwrap();
    };
}
/// A request: `kind` of summary; payload and opaque data are taken by contract.
macro_rules! request {
    ($m:ident, $v:literal, $kind:expr, $id:expr) => {
        let mut $m: [u8; 9] = nd::any();
        $m[..2].copy_from_slice(&[$v, 0xE6]);
        unsafe {
            PSK_REQ = ($kind, $id);
            PSK_HINT = nd::any();
        }
    };
}
macro_rules! sizes {
    ($kind:literal, $context:literal, $list:literal) => {
        unsafe {
            PSKX = (if $kind != 0 { 32 } else { 0 }, if $context { 32 } else { 0 }, if $list { 12 } else { 0 });
            VERSIONS = $list as u8;
        }
    };
}
const SELECT: [u8; 12] = [1, 0, 0, 0, 0, 0, 4, 0, 1, 0, 0, 0x10];
macro_rules! established {
    ($kind:literal, $context:literal, $list:literal) => {{
        responder!(r, n = 4, 0x12, $context);
        sizes!($kind, $context, $list);
        request!(m, 0x12, $kind, 0x4321);
        let ok = r.handle_spdm_psk_exchange(&m).is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0xE6, "transcripts end");
        assert!(times(SUMMARY) == ($kind != 0) as usize, "a summary if asked for");
        if $kind != 0 {
            let k = call(only(SUMMARY));
            assert!(k.arg == HASH.bits() as usize && k.head[..3] == [SPEC.bits(), MEAS.bits() as u8, $kind], "the summary asked for");
        }
        let sum = if $kind == 0 { 0 } else { 32 };
        let ctx = if $context { 32 } else { 0 };
        let opq = if $list { 12 } else { 0 };
        if $context {
            assert!(call(only(RAND)).len == 32, "a fresh context");
        }
        let len = 12 + sum + ctx + opq;
        let f = |p: usize| match p {
            0 | 1 => [0x12, 0x66][p],
            2 => r.common.config_info.heartbeat_period,
            4 | 5 => [0xFC, 0xFF][p - 4],
            8 => ctx as u8,
            10 => opq as u8,
            0..=11 => 0,
            _ if p < 12 + sum => unsafe { SUM[p - 12] },
            _ if p < 12 + sum + ctx => unsafe { RND[p - 12 - sum] },
            _ if p < len => SELECT[p - 12 - sum - ctx],
            _ => unsafe { MAC[p - len] },
        };
        let (q, k, h, y, z) = (nth(APPEND_K, 0), nth(APPEND_K, 1), only(HANDSHAKE), only(GEN_MAC), nth(APPEND_K, 2));
        assert!(is_call(q, APPEND_K, S, &m), "the request, whole");
        assert!(is_bytes(k, APPEND_K, S, len, f), "the response up to the verify data");
        assert!(is_bytes(h, HANDSHAKE, S, 32, |p| bytes_of(th(2))[p]) && call(h).arg == 0x12, "handshake secrets of that transcript");
        assert!(is_bytes(y, GEN_MAC, S, 32, |p| bytes_of(th(2))[p]) && y > h, "verify data of that transcript");
        assert!(is_bytes(z, APPEND_K, S, 32, |p| unsafe { MAC[p] }) && times(APPEND_K) == 3, "verify data");
        assert!(times(APPEND_F) == 0 && times(DHE_SECRET) == 0, "nothing else");
        assert!(unsafe { TH_ARGS }.0 && !unsafe { TH_ARGS }.2, "transcript of a PSK session");
        let t = only(SENT);
        assert!(is_bytes(t, SENT, None, len + 32, f) && call(t).arg == 0, "PSK_EXCHANGE_RSP");
        assert!(call(t).ok == ok && t == called() - 1, "outcome reported");
        assert!(r.common.session[0].get_session_id() == OTHER, "other sessions unchanged");
        let c = &r.common.session[1];
        assert!(c.get_session_id() == ID && c.get_use_psk() && c.heartbeat_period == r.common.config_info.heartbeat_period, "as negotiated");
        if $context {
            assert!(times(DATA) == 0 && c.get_session_state() == SpdmSessionState::SpdmSessionHandshaking, "handshaking");
        } else {
            let d = only(DATA);
            assert!(is_bytes(d, DATA, S, 32, |p| bytes_of(th(3))[p]) && call(d).arg == 0x12 && d > z, "data secrets of the whole transcript");
            assert!(c.get_session_state() == SpdmSessionState::SpdmSessionEstablished, "established at once");
        }
        let p = c.get_crypto_param();
        assert!(p.base_hash_algo == HASH && p.aead_algo == SpdmAeadAlgo::AES_256_GCM, "algorithms");
        assert!(c.secure_spdm_version_sel == if $list { 0x10 } else { 0x11 }, "secured message version");
        let i = c.runtime_info.psk_hint.as_ref().unwrap();
        assert!(i.data_size == 5 && i.data[..5] == unsafe { PSK_HINT }, "the key hinted at");
        assert!(c.runtime_info.rsp_cert_hash.is_none() && c.runtime_info.req_cert_hash.is_none(), "no chains");
        cover!(true, "done");
    }};
}
macro_rules! fails {
    ($kind:literal, $context:literal, $at:expr, $th:literal) => {{
        responder!(r, n = 6, 0x12, $context);
        sizes!($kind, $context, false);
        unsafe {
            FAIL = $at;
            TH_FAIL = $th;
        }
        request!(m, 0x12, $kind, 0x4321);
        let ok = r.handle_spdm_psk_exchange(&m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, None, 0x12, UNSPECIFIED), "ERROR");
        assert!(!ok && times(SENT) == 1, "and nothing else");
        assert!(r.common.session[0].get_session_id() == OTHER && r.common.session[1].get_session_id() == 0, "the session is free again");
        assert!(r.common.session[1].get_session_state() == SpdmSessionState::SpdmSessionNotStarted, "and not started");
        cover!(true, "done");
    }};
}
macro_rules! refused {
    (full = $full:literal, $versions:literal, $code:expr) => {{
        responder!(r, n = 4, 0x12, true);
        sizes!(0, true, false);
        if $full {
            r.common.session[1].setup(OTHER - 0x1_0000).unwrap();
        }
        unsafe { VERSIONS = $versions };
        request!(m, 0x12, 0, 0x4321);
        let ok = r.handle_spdm_psk_exchange(&m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, None, 0x12, $code) && !ok, "ERROR alone");
        assert!(times(SENT) == 1 && times(HANDSHAKE) == 0 && times(APPEND_K) == 0, "nothing else sent, derived or recorded");
        assert!(r.common.session[0].get_session_id() == OTHER && r.common.session[1].get_session_id() == if $full { OTHER - 0x1_0000 } else { 0 }, "sessions unchanged");
        cover!(true, "done");
    }};
}
/// No payload: refused before it, or because of it.
macro_rules! gate {
    ($len:literal, $v:literal, $b:expr, $code:expr) => {{
        responder!(r, n = nd::any(), $v, true);
        nd::assume(n <= 6);
        let m: [u8; $len] = nd::any();
        if $len > 1 {
            nd::assume($b(m[0]) && m[1] == 0xE6);
        }
        let ok = r.handle_spdm_psk_exchange(&m).is_ok();
        let code = if n < 3 { UNEXPECTED } else { $code };
        let last = called() - 1;
        assert!(sent_error(last, None, $v, code) && !ok, "ERROR alone");
        assert!(times(SENT) == 1 && times(HANDSHAKE) == 0 && times(APPEND_K) == 0, "nothing else sent, derived or recorded");
        assert!(r.common.session[0].get_session_id() == OTHER && r.common.session[1].get_session_id() == 0, "sessions unchanged");
        cover!(n < 3, "too early");
        cover!(n >= 3, "refused");
    }};
}
// ------------------------------------------------------------- PSK_FINISH
macro_rules! in_session {
    ($r:ident, $psk:literal) => {
        responder!($r, n = 4, 0x12, true);
        let s = &mut $r.common.session[1];
        s.setup(ID).unwrap();
        s.set_use_psk($psk);
        s.set_session_state(SpdmSessionState::SpdmSessionHandshaking);
    };
}
macro_rules! refuses {
    ($psk:literal, $m:expr, $at:expr, $th:literal, $code:expr) => {{
        in_session!(r, $psk);
        unsafe {
            FAIL = $at;
            TH_FAIL = $th;
        }
        let m = $m;
        let ok = r.handle_spdm_psk_finish(ID, &m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, S, 0x12, $code) && !ok, "ERROR");
        assert!(times(SENT) == 1 && (times(DATA) == 0 || $at.0 == DATA), "nothing else sent, no data secrets");
        assert!(r.common.session[1].get_session_state() == SpdmSessionState::SpdmSessionHandshaking, "not established");
        cover!(true, "done");
    }};
}
fn psk_finish<const N: usize>() -> [u8; N] {
    let mut m: [u8; N] = nd::any();
    m[..2].copy_from_slice(&[0x12, 0xE7]);
    m
}
harnesses! {
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn psk_exchange() { established!(0, true, true) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn psk_exchange_summary() { established!(1, true, false) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn psk_exchange_without_context() { established!(0xff, false, false) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn summary_fails() { fails!(1, true, (SUMMARY, 0), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn random_fails() { fails!(0, true, (RAND, 0), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn request_fails() { fails!(0, true, (APPEND_K, 0), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn response_fails() { fails!(0, true, (APPEND_K, 1), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn first_hash_fails() { fails!(0, true, NO, 0) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn handshake_fails() { fails!(0, true, (HANDSHAKE, 0), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn second_hash_fails() { fails!(0, true, NO, 1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn mac_fails() { fails!(0, true, (GEN_MAC, 0), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn verify_data_fails() { fails!(0, true, (APPEND_K, 2), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn last_hash_fails() { fails!(0, false, NO, 2) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn data_secrets_fail() { fails!(0, false, (DATA, 0), -1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn refused_full() { refused!(full = true, 0, LIMIT) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_rsp_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_req_read)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn refused_versions() { refused!(full = false, 3, 1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate() { gate!(6, 0x12, |b| b == 0x12, 1) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate_version() { gate!(6, 0x11, |b| b == 0x10 || b == 0x12, MISMATCH) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate_10() { gate!(6, 0x10, |b| b == 0x10, UNSUPPORTED) }
    /// @fns: ResponderContext::handle_spdm_psk_exchange, ResponderContext::write_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_exchange)]
    #[stubs(session_keys)]
    #[unwind(35)]
    fn gate_short() { gate!(1, 0x12, |_| true, 1) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn psk_finish_accepted() { {
        in_session!(r, true);
        let m: [u8; 36] = psk_finish();
        let ok = r.handle_spdm_psk_finish(ID, &m).is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0xE7 && call(0).session == S, "transcripts end");
        let (q, v, z, x, d, t) = (nth(APPEND_F, 0), only(VERIFY_HMAC), nth(APPEND_F, 1), nth(APPEND_F, 2), only(DATA), only(SENT));
        assert!(is_bytes(q, APPEND_F, S, 4, |p| m[p]) && call(q).arg == 0, "the request up to the verify data");
        assert!(is_bytes(v, VERIFY_HMAC, S, 32, |p| bytes_of(th(1))[p]) && v < z, "verify data of this transcript");
        let mac = unsafe { VERIFY_MAC };
        assert!(mac.0 == 32 && (unsafe { PROBE } >= 32 || mac.1 == m[4 + unsafe { PROBE }]), "the verify data received");
        assert!(is_bytes(z, APPEND_F, S, 32, |p| m[4 + p]), "then the verify data");
        assert!(is_bytes(x, APPEND_F, S, 4, |p| [0x12, 0x67, 0, 0][p]) && times(APPEND_F) == 3, "then the response");
        assert!(is_bytes(d, DATA, S, 32, |p| bytes_of(th(3))[p]) && call(d).arg == 0x12, "data secrets of the whole transcript");
        assert!(is_bytes(t, SENT, S, 4, |p| [0x12, 0x67, 0, 0][p]) && call(t).arg == 0, "PSK_FINISH_RSP");
        assert!(call(t).ok == ok && t == called() - 1, "outcome reported");
        cover!(true, "done");
    } }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_request_fails() { refuses!(true, psk_finish::<36>(), (APPEND_F, 0), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_hash_fails() { refuses!(true, psk_finish::<36>(), NO, 0, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_verify_data_wrong() { refuses!(true, psk_finish::<36>(), (VERIFY_HMAC, 0), -1, DECRYPT) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_verify_data_fails() { refuses!(true, psk_finish::<36>(), (APPEND_F, 1), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_response_fails() { refuses!(true, psk_finish::<36>(), (APPEND_F, 2), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_last_hash_fails() { refuses!(true, psk_finish::<36>(), NO, 1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_data_secrets_fail() { refuses!(true, psk_finish::<36>(), (DATA, 0), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_not_psk() { refuses!(false, psk_finish::<36>(), NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_short() { refuses!(true, psk_finish::<35>(), NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskFinishRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_finish)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_no_header() { refuses!(true, [nd::any::<u8>()], NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_psk_finish, ResponderContext::write_spdm_psk_finish_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskFinishRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_finish)]
    #[stubs(session_keys)]
    #[unwind(50)]
    fn finish_other_version() { refuses!(true, {
            let m: [u8; 5] = nd::any();
            nd::assume((m[0] == 0x10 || m[0] == 0x11) && m[1] == 0xE7);
            m
        }, NO, -1, MISMATCH) }
}
