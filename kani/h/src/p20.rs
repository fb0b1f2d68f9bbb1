//! P20: responder, completion of session set-up (FINISH).
//! @level proof
//! @assume signature providers are assumed primitives, recorded; transcripts, session secrets and sending are taken by contract (P06, P08, P11, P14)
use crate::{cx::*, nd, rec::*, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const UNSPECIFIED: u8 = 5;
const DECRYPT: u8 = 6;
const MISMATCH: u8 = 0x41;
const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
const OTHER: u32 = 0xFFFD_1234;
const ID: u32 = 0xFFFC_4321;
/// A session being set up from slot 2, the requester's chain in slot 1.
macro_rules! responder {
    ($r:ident, $clear:literal, $mutual:literal, $psk:literal, $a:ident) => {
        let (mut dev, mut tr) = (Dev, Stages);
        rctx!($r, dev, tr);
        install_hash();
        install_verify();
        unsafe { MAC = nd::any() };
        $r.common.runtime_info.set_connection_state(SpdmConnectionState::read_bytes(&[4]).unwrap());
        let g = &mut $r.common.negotiate_info;
        g.spdm_version_sel = ver(0x12);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
        g.req_asym_sel = SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
        g.rsp_capabilities_sel = SpdmResponseCapabilityFlags::KEY_EX_CAP;
        g.req_capabilities_sel = SpdmRequestCapabilityFlags::KEY_EX_CAP;
        if $clear {
            g.rsp_capabilities_sel |= SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
            g.req_capabilities_sel |= SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
        }
        let $a: [u8; 45] = nd::any();
        let mut c = SpdmCertChainBuffer::default();
        c.data_size = 45;
        c.data[..45].copy_from_slice(&$a);
        $r.common.peer_info.peer_cert_chain[1] = Some(c);
        $r.common.runtime_info.set_peer_used_cert_chain_slot_id(1);
        $r.common.session[0].setup(OTHER).unwrap();
        let s = &mut $r.common.session[1];
        s.setup(ID).unwrap();
        s.set_use_psk($psk);
        s.set_slot_id(2);
        s.set_session_state(SpdmSessionState::SpdmSessionHandshaking);
        if $mutual {
            s.set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS);
        }
    };
}
/// What is signed: the prefix of SPDM 1.2, the purpose, the hash of the transcript.
fn signed(p: usize, purpose: &[u8; 36], digest: u32) -> u8 {
    match p {
        0..=63 => b"dmtf-spdm-v1.2.*"[p % 16],
        64..=99 => purpose[p - 64],
        _ => bytes_of(digest)[p - 100],
    }
}
const S: Option<u32> = Some(ID);
/// A request with or without a signature.
macro_rules! request {
    ($m:ident, $signed:expr, $len:expr) => {
        let mut $m: [u8; $len] = nd::any();
        $m[..3].copy_from_slice(&[0x12, 0xE5, $signed as u8]);
    };
}
macro_rules! finished {
    ($clear:literal, $mutual:literal) => {{
        responder!(r, $clear, $mutual, false, a);
        request!(m, $mutual, if $mutual { 100 } else { 36 });
        let ok = r.handle_spdm_finish(ID, &m).is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0xE5 && call(0).session == S, "transcripts end");
        let q = nth(APPEND_F, 0);
        assert!(is_bytes(q, APPEND_F, S, 4, |p| m[p]), "the request up to the signature");
        assert!(call(q).arg == 0, "as a responder");
        let k = if $mutual { 1 } else { 0 };
        let mut before = 0;
        if $mutual {
            let v = only(VERIFY);
            assert!(is_bytes(v, VERIFY, None, 132, |p| signed(p, b"\0\0\0\0\0\0\0\0\0\0\0\0requester-finish signing", th(1))), "the requester signed this transcript");
            let (key, sig) = unsafe { (VERIFY_KEY, VERIFY_SIG) };
            assert!(key.0 == 45 - 36 && (unsafe { PROBE } >= 9 || key.1 == a[36 + unsafe { PROBE }]), "the requester's chain");
            assert!(sig.0 == 64 && (unsafe { PROBE } >= 64 || sig.1 == m[4 + unsafe { PROBE }]), "the signature received");
            before = nth(APPEND_F, 1);
            assert!(is_bytes(before, APPEND_F, S, 64, |p| m[4 + p]) && v < before, "then the signature");
        } else {
            assert!(times(VERIFY) == 0, "nothing signed");
        }
        let (v, z) = (only(VERIFY_HMAC), nth(APPEND_F, k + 1));
        assert!(is_bytes(v, VERIFY_HMAC, S, 32, |p| bytes_of(th(1 + k as u32))[p]), "verify data of this transcript");
        let mac = unsafe { VERIFY_MAC };
        assert!(mac.0 == 32 && (unsafe { PROBE } >= 32 || mac.1 == m[4 + 64 * k + unsafe { PROBE }]), "the verify data received");
        assert!(is_bytes(z, APPEND_F, S, 32, |p| m[4 + 64 * k + p]) && v < z && before < v, "then the verify data");
        let f = |p: usize| match p {
            0..=3 => [0x12, 0x65, 0, 0][p],
            _ => unsafe { MAC[p - 4] },
        };
        let (x, d, t) = (nth(APPEND_F, k + 2), only(DATA), only(SENT));
        assert!(is_bytes(x, APPEND_F, S, 4, f) && x > z, "the response up to its verify data");
        let mut parts = 3 + k;
        if $clear {
            let (h, y) = (only(GEN_MAC), nth(APPEND_F, k + 3));
            assert!(is_bytes(h, GEN_MAC, S, 32, |p| bytes_of(th(3 + k as u32))[p]), "verify data of this transcript");
            assert!(is_bytes(y, APPEND_F, S, 32, |p| unsafe { MAC[p] }) && y > h, "verify data");
            parts += 1;
        } else {
            assert!(times(GEN_MAC) == 0, "no verify data");
        }
        assert!(times(APPEND_F) == parts, "nothing else in the transcript");
        assert!(is_bytes(d, DATA, S, 32, |p| bytes_of(th(parts as u32))[p]) && call(d).arg == 0x12, "data secrets of the whole transcript");
        let via = if $clear { None } else { S };
        assert!(is_bytes(t, SENT, via, if $clear { 36 } else { 4 }, f) && call(t).arg == 0, "FINISH_RSP");
        assert!(call(t).ok == ok && t == called() - 1, "outcome reported");
        assert!(unsafe { TH_ARGS } == (false, 2, $mutual), "of this session");
        cover!(true, "done");
    }};
}
/// Whatever is wrong: ERROR alone, no data secrets.
macro_rules! fails {
    ($clear:literal, $mutual:literal, $psk:literal, $m:ident, $at:expr, $th:literal, $code:expr) => {{
        responder!(r, $clear, $mutual, $psk, a);
        unsafe {
            FAIL = $at;
            TH_FAIL = $th;
        }
        let ok = r.handle_spdm_finish(ID, &$m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, if $clear { None } else { S }, 0x12, $code) && !ok, "ERROR");
        assert!(times(SENT) == 1 && (times(DATA) == 0 || $at.0 == DATA), "nothing else sent, no data secrets");
        let s = &r.common.session[1];
        assert!(s.get_session_state() != SpdmSessionState::SpdmSessionEstablished, "not established");
        cover!(true, "done");
    }};
}
harnesses! {
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn finish() { finished!(false, false) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response, ResponderContext::verify_finish_req_signature
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn finish_mutual() { finished!(false, true) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn finish_clear() { finished!(true, false) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response, ResponderContext::verify_finish_req_signature
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn finish_clear_mutual() { finished!(true, true) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn request_fails() { request!(m, false, 36); fails!(false, false, false, m, (APPEND_F, 0), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response, ResponderContext::verify_finish_req_signature
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn signature_wrong() { request!(m, true, 100); fails!(false, true, false, m, (VERIFY, 0), -1, DECRYPT) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response, ResponderContext::verify_finish_req_signature
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn signature_hash_fails() { request!(m, true, 100); fails!(false, true, false, m, NO, 0, DECRYPT) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn signature_fails() { request!(m, true, 100); fails!(false, true, false, m, (APPEND_F, 1), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn hash_fails() { request!(m, false, 36); fails!(false, false, false, m, NO, 0, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn verify_data_wrong() { request!(m, false, 36); fails!(false, false, false, m, (VERIFY_HMAC, 0), -1, DECRYPT) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn verify_data_wrong_mutual() { request!(m, true, 100); fails!(false, true, false, m, (VERIFY_HMAC, 0), -1, DECRYPT) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn verify_data_fails() { request!(m, false, 36); fails!(false, false, false, m, (APPEND_F, 1), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn response_fails() { request!(m, false, 36); fails!(false, false, false, m, (APPEND_F, 2), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn last_hash_fails() { request!(m, false, 36); fails!(false, false, false, m, NO, 1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn data_secrets_fail() { request!(m, false, 36); fails!(false, false, false, m, (DATA, 0), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn clear_response_fails() { request!(m, false, 36); fails!(true, false, false, m, (APPEND_F, 2), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn clear_hash_fails() { request!(m, false, 36); fails!(true, false, false, m, NO, 1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn clear_mac_fails() { request!(m, false, 36); fails!(true, false, false, m, (GEN_MAC, 0), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn clear_verify_data_fails() { request!(m, false, 36); fails!(true, false, false, m, (APPEND_F, 3), -1, UNSPECIFIED) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn not_signed() { request!(m, false, 36); fails!(false, true, false, m, NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn signed_unasked() { request!(m, true, 100); fails!(false, false, false, m, NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn psk_session() { request!(m, false, 36); fails!(false, false, true, m, NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn short() { request!(m, false, 35); fails!(false, false, false, m, NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stubs(session_keys)]
    #[unwind(102)]
    fn short_signed() { request!(m, true, 99); fails!(false, true, false, m, NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stub(<spdmlib::message::SpdmFinishRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_finish)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn no_payload() { let m: [u8; 6] = nd::any(); nd::assume(m[0] == 0x12 && m[1] == 0xE5); fails!(false, false, false, m, NO, -1, 1) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stub(<spdmlib::message::SpdmFinishRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_finish)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn other_version() { let m: [u8; 6] = nd::any(); nd::assume((m[0] == 0x10 || m[0] == 0x11) && m[1] == 0xE5); fails!(false, false, false, m, NO, -1, MISMATCH) }
    /// @fns: ResponderContext::handle_spdm_finish, ResponderContext::write_spdm_finish_response
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[stub(<spdmlib::message::SpdmFinishRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_finish)]
    #[stubs(session_keys)]
    #[unwind(102)]
    fn no_header() { let m: [u8; 1] = nd::any(); fails!(true, false, false, m, NO, -1, 1) }
}
