//! P27: a requester sets up sessions.
//! @level proof
//! @assume DHE, hash, random and signature providers are assumed primitives, recorded; message codecs, transcripts, session secrets, sending and receiving are taken by contract (P06, P08, P11, P12, P14, P23)
use crate::{contracts::*, cx::*, nd, rec::*, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::opaque::*;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;

const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
/// The session there already is.
const OTHER: u32 = 0x1234_FFFD;
/// The session set up: the responder's half first.
const ID: u32 = 0x4321_FFFC;
const S: Option<u32> = Some(ID);
/// Secured message versions 1.0 and 1.1.
const LIST: [u8; 16] = [1, 0, 0, 0, 0, 0, 7, 0, 1, 1, 2, 0, 0x10, 0, 0x11, 0];
const BLANK: &[u8] = &[0xA1, 0xA2, 0xA3];
macro_rules! requester {
    ($q:ident, $clear:expr, $c:ident) => {
        let (mut dev, mut tr) = (Dev, Stages);
        qctx!($q, dev, tr);
        install_hash();
        install_random();
        install_verify();
        install_dhe();
        let g = &mut $q.common.negotiate_info;
        g.spdm_version_sel = ver(0x12);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
        g.dhe_sel = SpdmDheAlgo::SECP_256_R1;
        g.aead_sel = SpdmAeadAlgo::AES_256_GCM;
        g.key_schedule_sel = SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE;
        g.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
        g.rsp_capabilities_sel = SpdmResponseCapabilityFlags::KEY_EX_CAP;
        g.req_capabilities_sel = SpdmRequestCapabilityFlags::KEY_EX_CAP;
        if $clear {
            g.rsp_capabilities_sel |= SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
            g.req_capabilities_sel |= SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
        }
        $q.common.config_info.session_policy = nd::any();
        $q.common.runtime_info.message_a.append_message(BLANK).unwrap();
        let $c: [u8; 41] = nd::any();
        let mut chain = SpdmCertChainBuffer::default();
        chain.data_size = 41;
        chain.data[..41].copy_from_slice(&$c);
        $q.common.peer_info.peer_cert_chain[2] = Some(chain);
        $q.common.session[0].setup(OTHER).unwrap();
    };
}
/// A well formed answer of `$n` bytes, and two more that are no part of it.
macro_rules! answered {
    ($m:ident, $kind:literal, $n:literal, $mutual:expr, $slot:expr) => {
        unsafe {
            USED = $n - 2;
            EXCHANGED = (nd::any(), 0x4321, $mutual, $slot);
            KEX_KEY = nd::any();
            SELECTED = nd::any();
            nd::assume(SELECTED == 0 || SELECTED == 0x10 || SELECTED == 0x11);
        }
        let mut $m: [u8; $n + 2] = nd::any();
        $m[..2].copy_from_slice(&[0x12, $kind]);
        ans($m, $n + 2);
    };
}
fn kind(k: u8) -> SpdmMeasurementSummaryHashType {
    SpdmMeasurementSummaryHashType::read_bytes(&[k]).unwrap()
}
/// Nothing but the session there was is left.
macro_rules! as_before {
    ($q:ident) => {
        assert!($q.common.session[0].get_session_id() == OTHER && $q.common.session[1].get_session_id() == 0, "the session is free again");
        assert!($q.common.session[1].get_session_state() == SpdmSessionState::SpdmSessionNotStarted, "and not started");
        assert!($q.common.runtime_info.get_last_session_id().is_none(), "no session in the clear");
    };
}
/// What both kinds of session have in common.
macro_rules! set_up {
    ($q:ident, $s:ident, $psk:literal) => {
        let $s = &$q.common.session[1];
        assert!($s.get_session_id() == ID && $s.get_use_psk() == $psk, "the session");
        assert!($q.common.session[0].get_session_id() == OTHER && $q.common.session[0].get_session_state() == SpdmSessionState::SpdmSessionNotStarted, "other sessions unchanged");
        let p = $s.get_crypto_param();
        assert!(p.base_hash_algo == HASH && p.dhe_algo == SpdmDheAlgo::SECP_256_R1 && p.aead_algo == SpdmAeadAlgo::AES_256_GCM && p.key_schedule_algo == SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE, "algorithms");
        assert!($s.secure_spdm_version_sel == unsafe { SELECTED } && $s.heartbeat_period == unsafe { EXCHANGED.0 }, "as the responder decided");
        assert!($s.runtime_info.message_a.as_ref().len() == BLANK.len() && $s.runtime_info.message_a.as_ref()[2] == BLANK[2], "transcript of the connection");
        assert!($s.runtime_info.req_cert_hash.is_none(), "no requester chain yet");
    };
}
macro_rules! established {
    ($kind:literal, $clear:literal, $able:literal) => {{
        requester!(q, $clear, c);
        if $able {
            q.common.negotiate_info.req_capabilities_sel |= SpdmRequestCapabilityFlags::MUT_AUTH_CAP;
            q.common.negotiate_info.rsp_capabilities_sel |= SpdmResponseCapabilityFlags::MUT_AUTH_CAP;
        }
        let (mutual, slot): (u8, u8) = if $able { (nd::any(), nd::any()) } else { (0, nd::any()) };
        nd::assume(mutual < 8 && !(mutual == 2 && slot >= 8));
        answered!(m, 0x64, 132, mutual, slot);
        let r = q.send_receive_spdm_key_exchange(2, kind($kind));
        assert!(r == Ok(ID), "both halves of its identity");
        assert!(call(0).what == RESET_VIA && call(0).arg == 0xE4 && call(0).session.is_none(), "transcripts end");
        assert!(q.common.runtime_info.need_measurement_summary_hash == ($kind != 0), "a summary is read exactly if asked for");
        // the request
        let policy = q.common.config_info.session_policy;
        let f = |p: usize| match p {
            0..=7 => [0x12, 0xE4, $kind, 2, 0xFC, 0xFF, policy, 0][p],
            8..=39 => unsafe { RND[p - 8] },
            40..=103 => unsafe { PUBLIC[p - 40] },
            104 | 105 => [16, 0][p - 104],
            _ => LIST[p - 106],
        };
        assert!(call(only(RAND)).len == 32 && call(only(DHE)).arg == SpdmDheAlgo::SECP_256_R1.bits() as usize, "fresh randomness, a key pair of the negotiated group");
        let (t, w) = (only(SENT), only(RECEIVED));
        assert!(is_bytes(t, SENT, None, 122, f), "KEY_EXCHANGE");
        assert!(w == t + 1 && call(w).session.is_none(), "one answer to it");
        // the keys
        let d = only(DHE_SECRET);
        assert!(is_bytes(only(DHE_FINAL), DHE_FINAL, None, 64, |p| unsafe { KEX_KEY[p] }), "the responder's key");
        assert!(is_bytes(d, DHE_SECRET, S, 32, |p| unsafe { SHARED[p] }) && call(d).arg == 0x12, "the shared key");
        // the transcript
        let sig = 132 - 64 - if $clear { 0 } else { 32 };
        assert!(is_bytes(nth(APPEND_K, 0), APPEND_K, S, 122, f), "the request, whole");
        assert!(is_ans(nth(APPEND_K, 1), APPEND_K, S, sig), "the response up to the signature");
        let (v, g, h) = (only(VERIFY), nth(APPEND_K, 2), only(HANDSHAKE));
        assert!(is_bytes(v, VERIFY, None, 132, |p| signed(p, b"\0\0responder-key_exchange_rsp signing", th(2))), "signed for this purpose");
        assert!(call(v).arg == (HASH.bits() << 16 | ASYM.bits()) as usize, "with the negotiated algorithms");
        assert!(unsafe { VERIFY_KEY } == (5, probe(&c[36..])), "by the certificates retrieved from this slot");
        assert!(unsafe { VERIFY_SIG.0 == 64 && (PROBE >= 64 || VERIFY_SIG.1 == m[sig + PROBE]) }, "this signature");
        assert!(is_bytes(g, APPEND_K, S, 64, |p| m[sig + p]), "the signature");
        assert!(is_bytes(h, HANDSHAKE, S, 32, |p| bytes_of(th(3))[p]) && call(h).arg == 0x12 && h > d && h > v, "handshake secrets of that transcript");
        if $clear {
            assert!(times(VERIFY_HMAC) == 0 && times(APPEND_K) == 3, "no verify data");
        } else {
            let y = only(VERIFY_HMAC);
            assert!(is_bytes(y, VERIFY_HMAC, S, 32, |p| bytes_of(th(3))[p]) && y > h, "verify data of that transcript");
            assert!(unsafe { VERIFY_MAC.0 == 32 && (PROBE >= 32 || VERIFY_MAC.1 == m[100 + PROBE]) }, "this verify data");
            assert!(is_bytes(nth(APPEND_K, 3), APPEND_K, S, 32, |p| m[100 + p]) && times(APPEND_K) == 4, "verify data");
        }
        assert!(unsafe { TH_ARGS } == (false, 2, false), "transcript of this slot, without requester chain");
        // the session
        set_up!(q, s, false);
        assert!(s.get_session_state() == SpdmSessionState::SpdmSessionHandshaking, "handshaking");
        assert!(s.get_mut_auth_requested().bits() == mutual, "mutual authentication as announced");
        assert!(mutual == 0 || q.common.runtime_info.get_local_used_cert_chain_slot_id() == slot & 15, "by this slot");
        assert!(q.common.runtime_info.get_last_session_id() == if $clear { S } else { None }, "next message in the clear is of this session");
        let k = hash_log(0);
        assert!(k.op == Op::All && k.arg == HASH.bits() as usize && k.len == 41 && k.probe == probe(&c), "hash of the chain in that slot");
        assert!(s.runtime_info.rsp_cert_hash.as_ref().unwrap().data[0] == bytes_of(digest_tag(0x1000))[0], "kept");
        cover!(true, "done");
    }};
}
/// A step fails: the session does not remain.
macro_rules! fails {
    ($clear:literal, $at:expr, $hash:literal, $th:literal) => {{
        requester!(q, $clear, c);
        answered!(m, 0x64, 132, 0, 0);
        unsafe {
            FAIL = $at;
            HASH_FAIL = $hash;
            TH_FAIL = $th;
        }
        let r = q.send_receive_spdm_key_exchange(2, kind(0));
        assert!(r.is_err(), "failure reported");
        assert!($at.0 != VERIFY && $at.0 != VERIFY_HMAC || r == Err(SPDM_STATUS_VERIF_FAIL), "not verified");
        assert!($at.0 != VERIFY || times(HANDSHAKE) == 0, "no keys of a responder not verified");
        as_before!(q);
        cover!(true, "done");
    }};
}
/// Not asked for, or not accepted.
macro_rules! refused {
    ($slot:expr, full = $full:literal, $opaque:expr, $mutual:expr, $asks:literal) => {{
        requester!(q, false, c);
        let slot: u8 = $slot;
        let (mutual, theirs, able, other): (u8, u8, bool, bool) = (nd::any(), nd::any(), nd::any(), nd::any());
        nd::assume(if $mutual { mutual < 8 && mutual != 0 && (!(able && other) || mutual == 2 && theirs >= 8) } else { mutual == 0 });
        if able {
            q.common.negotiate_info.req_capabilities_sel |= SpdmRequestCapabilityFlags::MUT_AUTH_CAP;
        }
        if other {
            q.common.negotiate_info.rsp_capabilities_sel |= SpdmResponseCapabilityFlags::MUT_AUTH_CAP;
        }
        q.common.negotiate_info.opaque_data_support = $opaque;
        answered!(m, 0x64, 132, mutual, theirs);
        if $full {
            q.common.session[1].setup(0x1235_FFFC).unwrap();
        }
        let r = q.send_receive_spdm_key_exchange(slot, kind(0));
        assert!(r.is_err() && times(SENT) == $asks && times(VERIFY) == 0 && times(APPEND_K) == 0, "refused");
        assert!(slot < 8 || r == Err(SPDM_STATUS_INVALID_PARAMETER), "no such slot");
        assert!(q.common.session[0].get_session_id() == OTHER && q.common.session[1].get_session_id() == if $full { 0x1235_FFFC } else { 0 }, "sessions unchanged");
        cover!(true, "done");
    }};
}
/// Anything but a well formed answer.
macro_rules! other {
    ($len:literal, $code:literal, $rsp:literal, $ask:expr) => {{
        requester!(q, false, c);
        let m: [u8; 4] = nd::any();
        ans(m, $len);
        let ask: fn(&mut spdmlib::requester::RequesterContext) -> SpdmResult<u32> = $ask;
        let e = ask(q).err();
        assert!(times(APPEND_K) == 0 && times(SENT) == 1 && times(RECEIVED) == 1, "asked once, nothing recorded");
        assert!(e.is_some(), "an error");
        as_before!(q);
        if $len > 1 {
            assert!(m[0] == 0x12 || e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "of another version");
            assert!(m[0] != 0x12 || m[1] != $rsp || e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "incomplete");
            assert!(m[0] != 0x12 || m[1] == $rsp || m[1] == 0x7F || e == Some(SPDM_STATUS_ERROR_PEER), "of another kind");
            assert!(m[0] != 0x12 || m[1] != 0x7F || m[2] != 3 || e == Some(SPDM_STATUS_BUSY_PEER), "busy");
        }
        cover!(true, "done");
    }};
}
/// With a pre-shared key; `$direct`: the responder brings no context, and PSK_FINISH is skipped.
macro_rules! psk {
    ($kind:literal, $direct:literal, $at:expr, $th:literal) => {{
        requester!(q, nd::any::<bool>(), c);
        q.common.negotiate_info.rsp_capabilities_sel |= if $direct { SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT } else { SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT };
        answered!(m, 0x66, 60, 0, 0);
        unsafe {
            FAIL = $at;
            TH_FAIL = $th;
        }
        let h: [u8; 5] = nd::any();
        let mut hint = SpdmPskHintStruct::default();
        hint.data_size = 5;
        hint.data[..5].copy_from_slice(&h);
        let r = q.send_receive_spdm_psk_exchange(kind($kind), Some(&hint));
        if $at != NO || $th >= 0 {
            assert!(r.is_err(), "failure reported");
            assert!($at.0 != VERIFY_HMAC || r == Err(SPDM_STATUS_VERIF_FAIL), "not verified");
            assert!($at.0 != VERIFY_HMAC || times(DATA) == 0, "no keys of a responder not verified");
            as_before!(q);
        } else {
            assert!(r == Ok(ID), "both halves of its identity");
            assert!(call(0).what == RESET_VIA && call(0).arg == 0xE6 && call(0).session.is_none(), "transcripts end");
            assert!(q.common.runtime_info.need_measurement_summary_hash == ($kind != 0), "a summary is read exactly if asked for");
            let f = |p: usize| match p {
                0..=11 => [0x12, 0xE6, $kind, 0, 0xFC, 0xFF, 5, 0, 32, 0, 16, 0][p],
                12..=16 => h[p - 12],
                17..=48 => unsafe { RND[p - 17] },
                _ => LIST[p - 49],
            };
            assert!(call(only(RAND)).len == 32, "fresh randomness");
            let (t, w) = (only(SENT), only(RECEIVED));
            assert!(is_bytes(t, SENT, None, 65, f), "PSK_EXCHANGE");
            assert!(w == t + 1 && call(w).session.is_none(), "one answer to it");
            assert!(is_bytes(nth(APPEND_K, 0), APPEND_K, S, 65, f), "the request, whole");
            assert!(is_ans(nth(APPEND_K, 1), APPEND_K, S, 28), "the response up to the verify data");
            let (k, y) = (only(HANDSHAKE), only(VERIFY_HMAC));
            assert!(is_bytes(k, HANDSHAKE, S, 32, |p| bytes_of(th(2))[p]) && call(k).arg == 0x12, "handshake secrets of that transcript");
            assert!(is_bytes(y, VERIFY_HMAC, S, 32, |p| bytes_of(th(2))[p]) && y > k, "verify data of that transcript");
            assert!(unsafe { VERIFY_MAC.0 == 32 && (PROBE >= 32 || VERIFY_MAC.1 == m[28 + PROBE]) }, "this verify data");
            assert!(is_bytes(nth(APPEND_K, 2), APPEND_K, S, 32, |p| m[28 + p]) && times(APPEND_K) == 3, "verify data");
            assert!(unsafe { TH_ARGS } == (true, 0xFF, false), "transcript without certificates");
            assert!(times(DHE) == 0 && times(VERIFY) == 0, "no certificates");
            set_up!(q, s, true);
            if $direct {
                let d = only(DATA);
                assert!(is_bytes(d, DATA, S, 32, |p| bytes_of(th(3))[p]) && call(d).arg == 0x12 && d > y, "data secrets of the whole transcript");
                assert!(s.get_session_state() == SpdmSessionState::SpdmSessionEstablished, "established");
            } else {
                assert!(times(DATA) == 0 && s.get_session_state() == SpdmSessionState::SpdmSessionHandshaking, "handshaking");
            }
            assert!(s.runtime_info.rsp_cert_hash.is_none(), "no chain");
            let b = s.runtime_info.psk_hint.as_ref().unwrap();
            assert!(b.data_size == 5 && b.data[..5] == h, "the hint it was asked for with");
            assert!(q.common.runtime_info.get_last_session_id().is_none(), "no session in the clear");
        }
        cover!(true, "done");
    }};
}
/// A session being set up, mutually authenticated from the chain in slot 1 or not.
macro_rules! setting_up {
    ($q:ident, $clear:expr, $mutual:literal, $psk:literal) => {
        requester!($q, $clear, c);
        install_sign();
        let s = &mut $q.common.session[1];
        s.setup(ID).unwrap();
        s.set_use_psk($psk);
        s.set_session_state(SpdmSessionState::SpdmSessionHandshaking);
        if $clear {
            $q.common.runtime_info.set_last_session_id(S);
        }
        if $mutual {
            $q.common.session[1].set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS);
            $q.common.runtime_info.set_local_used_cert_chain_slot_id(1);
            let mut own = SpdmCertChainBuffer::default();
            own.data_size = 43;
            $q.common.provision_info.my_cert_chain[1] = Some(own);
        }
        $q.common.negotiate_info.req_asym_sel = SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
    };
}
macro_rules! finish {
    ($clear:literal, $mutual:literal, $at:expr, $th:literal) => {{
        setting_up!(q, $clear, $mutual, false);
        unsafe {
            FAIL = $at;
            TH_FAIL = $th;
        }
        const N: usize = if $clear { 36 } else { 4 };
        let mut m: [u8; N + 2] = nd::any();
        m[..2].copy_from_slice(&[0x12, 0x65]);
        ans(m, N + 2);
        let slot: Option<u8> = if $mutual { Some(1) } else { None };
        let ok = q.send_receive_spdm_finish(slot, ID).is_ok();
        if $at != NO || $th >= 0 {
            assert!(!ok, "failure reported");
            assert!($at.0 != VERIFY_HMAC || times(DATA) == 0, "no keys of a responder not verified");
            assert!(q.common.session[0].get_session_id() == OTHER && q.common.session[1].get_session_id() == 0, "the session ends");
        } else {
            assert!(ok, "established");
            let wire = if $clear { None } else { S };
            let n = if $mutual { 64 } else { 0 };
            let f = |p: usize| match p {
                0..=3 => [0x12, 0xE5, $mutual as u8, $mutual as u8][p],
                _ if p < 4 + n => unsafe { SIG[p - 4] },
                _ => unsafe { MAC[p - 4 - n] },
            };
            assert!(call(0).what == RESET_VIA && call(0).arg == 0xE5 && call(0).session == S, "transcripts end");
            let (t, w) = (only(SENT), only(RECEIVED));
            assert!(is_bytes(t, SENT, wire, 36 + n, f) && ($clear || call(t).arg == 0), "FINISH");
            assert!(w == t + 1 && call(w).session == wire, "one answer to it");
            assert!(is_bytes(nth(APPEND_F, 0), APPEND_F, S, 4, f), "transcript of the request");
            let i = if $mutual {
                let x = only(SIGN);
                assert!(is_bytes(x, SIGN, None, 132, |p| signed(p, b"\0\0\0\0\0\0\0\0\0\0\0\0requester-finish signing", th(1))), "signed for this purpose");
                assert!(is_bytes(nth(APPEND_F, 1), APPEND_F, S, 64, |p| unsafe { SIG[p] }), "the signature");
                2
            } else {
                assert!(times(SIGN) == 0, "nothing signed");
                1
            };
            let y = only(GEN_MAC);
            assert!(is_bytes(y, GEN_MAC, S, 32, |p| bytes_of(th(i as u32))[p]), "verify data of the transcript");
            assert!(is_bytes(nth(APPEND_F, i), APPEND_F, S, 32, |p| unsafe { MAC[p] }), "verify data");
            assert!(is_ans(nth(APPEND_F, i + 1), APPEND_F, S, 4), "the response up to the verify data");
            let j = if $clear {
                let z = only(VERIFY_HMAC);
                assert!(is_bytes(z, VERIFY_HMAC, S, 32, |p| bytes_of(th(i as u32 + 2))[p]), "verify data of that transcript");
                assert!(unsafe { VERIFY_MAC.0 == 32 && (PROBE >= 32 || VERIFY_MAC.1 == m[4 + PROBE]) }, "this verify data");
                assert!(is_bytes(nth(APPEND_F, i + 2), APPEND_F, S, 32, |p| m[4 + p]), "verify data");
                i + 3
            } else {
                assert!(times(VERIFY_HMAC) == 0, "no verify data");
                i + 2
            };
            assert!(times(APPEND_F) == j, "nothing else");
            let d = only(DATA);
            assert!(is_bytes(d, DATA, S, 32, |p| bytes_of(th(j as u32))[p]) && call(d).arg == 0x12, "data secrets of the whole transcript");
            assert!(unsafe { TH_ARGS.0 == false && TH_ARGS.2 == $mutual }, "transcript with the chains used");
            assert!(q.common.session[1].get_session_id() == ID && q.common.session[1].get_session_state() == SpdmSessionState::SpdmSessionEstablished, "established");
            assert!(q.common.runtime_info.get_last_session_id().is_none(), "no more messages in the clear");
            assert!(q.common.session[0].get_session_id() == OTHER, "other sessions unchanged");
        }
        cover!(true, "done");
    }};
}
macro_rules! psk_finish {
    ($at:expr, $th:literal) => {{
        setting_up!(q, false, false, true);
        unsafe {
            FAIL = $at;
            TH_FAIL = $th;
        }
        let mut m: [u8; 6] = nd::any();
        m[..2].copy_from_slice(&[0x12, 0x67]);
        ans(m, 6);
        let ok = q.send_receive_spdm_psk_finish(ID).is_ok();
        if $at != NO || $th >= 0 {
            assert!(!ok, "failure reported");
            assert!(q.common.session[0].get_session_id() == OTHER && q.common.session[1].get_session_id() == 0, "the session ends");
        } else {
            assert!(ok, "established");
            let f = |p: usize| match p {
                0..=3 => [0x12, 0xE7, 0, 0][p],
                _ => unsafe { MAC[p - 4] },
            };
            assert!(call(0).what == RESET_VIA && call(0).arg == 0xE7 && call(0).session == S, "transcripts end");
            let (t, w) = (only(SENT), only(RECEIVED));
            assert!(is_bytes(t, SENT, S, 36, f) && call(t).arg == 0, "PSK_FINISH");
            assert!(w == t + 1 && call(w).session == S, "one answer to it");
            assert!(is_bytes(nth(APPEND_F, 0), APPEND_F, S, 4, f), "transcript of the request");
            assert!(is_bytes(only(GEN_MAC), GEN_MAC, S, 32, |p| bytes_of(th(1))[p]), "verify data of the transcript");
            assert!(is_bytes(nth(APPEND_F, 1), APPEND_F, S, 32, |p| unsafe { MAC[p] }), "verify data");
            assert!(is_ans(nth(APPEND_F, 2), APPEND_F, S, 4) && times(APPEND_F) == 3, "the response");
            let d = only(DATA);
            assert!(is_bytes(d, DATA, S, 32, |p| bytes_of(th(3))[p]) && call(d).arg == 0x12, "data secrets of the whole transcript");
            assert!(unsafe { TH_ARGS } == (true, 0xFF, false), "transcript without certificates");
            assert!(q.common.session[1].get_session_id() == ID && q.common.session[1].get_session_state() == SpdmSessionState::SpdmSessionEstablished, "established");
            assert!(q.common.session[0].get_session_id() == OTHER, "other sessions unchanged");
        }
        cover!(true, "done");
    }};
}
/// FINISH or PSK_FINISH answered otherwise: the session ends.
macro_rules! other_end {
    ($len:literal, $clear:literal, $rsp:literal, $ask:expr) => {{
        setting_up!(q, $clear, false, false);
        let m: [u8; 4] = nd::any();
        nd::assume($len < 4 || $clear || m[0] != 0x12 || m[1] != $rsp);
        ans(m, $len);
        let ask: fn(&mut spdmlib::requester::RequesterContext) -> SpdmResult = $ask;
        let e = ask(q).err();
        assert!(e.is_some() && times(SENT) == 1 && times(DATA) == 0, "an error");
        assert!(q.common.session[0].get_session_id() == OTHER && q.common.session[1].get_session_id() == 0, "the session ends");
        if $len > 1 {
            assert!(m[0] == 0x12 || e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "of another version");
        }
        cover!(true, "done");
    }};
}
fn kex(q: &mut spdmlib::requester::RequesterContext) -> SpdmResult<u32> {
    q.send_receive_spdm_key_exchange(2, kind(0))
}
fn pskx(q: &mut spdmlib::requester::RequesterContext) -> SpdmResult<u32> {
    let mut hint = SpdmPskHintStruct::default();
    hint.data_size = 5;
    q.send_receive_spdm_psk_exchange(kind(0), Some(&hint))
}
harnesses! {
    /// A session with certificates.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange() { established!(0, false, false) }
    /// With mutual authentication, and a summary of the measurements.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_mutual() { established!(0xff, false, true) }
    /// The handshake in the clear.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_clear() { established!(1, true, false) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_random() { fails!(false, (RAND, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_key_pair() { fails!(false, (DHE, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_send() { fails!(false, (SENT, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_receive() { fails!(false, (RECEIVED, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_agree() { fails!(false, (DHE_FINAL, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_chain_hash() { fails!(false, NO, 0, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_secret() { fails!(false, (DHE_SECRET, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_request() { fails!(false, (APPEND_K, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_response() { fails!(false, (APPEND_K, 1), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_transcript() { fails!(false, NO, -1, 0) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_verify() { fails!(false, (VERIFY, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_signature() { fails!(false, (APPEND_K, 2), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_th1() { fails!(false, NO, -1, 1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_handshake() { fails!(false, (HANDSHAKE, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_th_mac() { fails!(false, NO, -1, 2) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_mac() { fails!(false, (VERIFY_HMAC, 0), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_fails_mac_append() { fails!(false, (APPEND_K, 3), -1, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_clear_fails_verify() { fails!(true, (VERIFY, 0), -1, -1) }
    /// There is no such slot.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_slot() { refused!({ let s: u8 = nd::any(); nd::assume(s >= 8); s }, full = false, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, false, 0) }
    /// No chain was retrieved from the slot.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_no_chain() { refused!(3, full = false, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, false, 1) }
    /// All sessions are in use.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_full() { refused!(2, full = true, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, false, 0) }
    /// No format of opaque data was agreed.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_no_format() { refused!(2, full = false, SpdmOpaqueSupport::empty(), false, 0) }
    /// Mutual authentication that was not agreed, or by no slot.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::key_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_not_mutual() { refused!(2, full = false, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, true, 1) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, spdm_handle_error_response_main
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_key_exchange_rsp)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_other_0() { other!(0, 0xE4, 0x64, kex) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_key_exchange_rsp)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_other_1() { other!(1, 0xE4, 0x64, kex) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_key_exchange, encode_spdm_key_exchange, handle_spdm_key_exhcange_response, verify_key_exchange_rsp_signature, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmKeyExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::key_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmKeyExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_key_exchange_rsp)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn key_exchange_other_4() { other!(4, 0xE4, 0x64, kex) }
    /// A session with a pre-shared key.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange() { psk!(0, false, NO, -1) }
    /// With a summary of the measurements; the responder brings no context.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_direct() { psk!(1, true, NO, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_random() { psk!(0, false, (RAND, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_send() { psk!(0, false, (SENT, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_receive() { psk!(0, false, (RECEIVED, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_request() { psk!(0, false, (APPEND_K, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_response() { psk!(0, false, (APPEND_K, 1), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_transcript() { psk!(0, false, NO, 0) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_handshake() { psk!(0, false, (HANDSHAKE, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_th_mac() { psk!(0, false, NO, 1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_mac() { psk!(0, true, (VERIFY_HMAC, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_mac_append() { psk!(0, false, (APPEND_K, 2), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_th2() { psk!(0, true, NO, 2) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, release_session
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::psk_exchange_rsp_read)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_fails_data() { psk!(0, true, (DATA, 0), -1) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, spdm_handle_error_response_main
    /// @tier: thorough
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_exchange_rsp)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_other_0() { other!(0, 0xE6, 0x66, pskx) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_exchange_rsp)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_other_1() { other!(1, 0xE6, 0x66, pskx) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_psk_exchange, encode_spdm_psk_exchange, handle_spdm_psk_exchange_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmPskExchangeRequestPayload as spdmlib::common::SpdmCodec>::spdm_encode, crate::contracts::psk_exchange_req_encode)]
    #[stub(<spdmlib::message::SpdmPskExchangeResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_psk_exchange_rsp)]
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_exchange_other_4() { other!(4, 0xE6, 0x66, pskx) }
    /// The session is completed.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish() { finish!(false, false, NO, -1) }
    /// In the clear.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_clear() { finish!(true, false, NO, -1) }
    /// With mutual authentication.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, generate_finish_req_signature
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_mutual() { finish!(false, true, NO, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_send() { finish!(false, false, (SENT, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_receive() { finish!(false, false, (RECEIVED, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_request() { finish!(false, false, (APPEND_F, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_transcript() { finish!(false, false, NO, 0) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_mac() { finish!(false, false, (GEN_MAC, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_mac_append() { finish!(false, false, (APPEND_F, 1), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_response() { finish!(false, false, (APPEND_F, 2), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_th2() { finish!(false, false, NO, 1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_data() { finish!(false, false, (DATA, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, generate_finish_req_signature
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_sign() { finish!(false, true, (SIGN, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, generate_finish_req_signature
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_th_sign() { finish!(false, true, NO, 0) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, generate_finish_req_signature
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_sign_append() { finish!(false, true, (APPEND_F, 1), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, generate_finish_req_signature
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_check() { finish!(false, true, (VERIFY, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_verify() { finish!(true, false, (VERIFY_HMAC, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_th_verify() { finish!(true, false, NO, 1) }
    /// A step fails.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_fails_verify_append() { finish!(true, false, (APPEND_F, 3), -1) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, spdm_handle_error_response_main
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_other_0() { other_end!(0, false, 0x65, |q| q.send_receive_spdm_finish(None, ID)) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_other_1() { other_end!(1, false, 0x65, |q| q.send_receive_spdm_finish(None, ID)) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_other_3() { other_end!(3, false, 0x65, |q| q.send_receive_spdm_finish(None, ID)) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_other_4() { other_end!(4, false, 0x65, |q| q.send_receive_spdm_finish(None, ID)) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_finish, encode_spdm_finish, handle_spdm_finish_response, spdm_handle_error_response_main
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn finish_other_clear() { other_end!(4, true, 0x65, |q| q.send_receive_spdm_finish(None, ID)) }
    /// The session is completed.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish() { psk_finish!(NO, -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_send() { psk_finish!((SENT, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_receive() { psk_finish!((RECEIVED, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_request() { psk_finish!((APPEND_F, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_transcript() { psk_finish!(NO, 0) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_mac() { psk_finish!((GEN_MAC, 0), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_mac_append() { psk_finish!((APPEND_F, 1), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_response() { psk_finish!((APPEND_F, 2), -1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_th2() { psk_finish!(NO, 1) }
    /// A step fails.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_fails_data() { psk_finish!((DATA, 0), -1) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response, spdm_handle_error_response_main
    /// @tier: thorough
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_other_0() { other_end!(0, false, 0x67, |q| q.send_receive_spdm_psk_finish(ID)) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_other_1() { other_end!(1, false, 0x67, |q| q.send_receive_spdm_psk_finish(ID)) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_other_3() { other_end!(3, false, 0x67, |q| q.send_receive_spdm_psk_finish(ID)) }
    /// Another answer, or an incomplete one.
    /// @fns: send_receive_spdm_psk_finish, encode_spdm_psk_finish, handle_spdm_psk_finish_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stubs(requester_keys)]
    #[unwind(140)]
    fn psk_finish_other_4() { other_end!(4, false, 0x67, |q| q.send_receive_spdm_psk_finish(ID)) }
}
