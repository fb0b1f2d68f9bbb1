//! P18: a responder reports the measurements of its device.
//! @level proof
//! @assume hash, random, signature and measurement providers are assumed primitives, recorded; transcripts and sending are taken by contract (P11, P14)
use crate::{cx::*, nd, rec::*, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const INVALID: u8 = 1;
const UNEXPECTED: u8 = 4;
const UNSPECIFIED: u8 = 5;
const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
const MEAS: SpdmMeasurementHashAlgo = SpdmMeasurementHashAlgo::TPM_ALG_SHA_512;
const SPEC: SpdmMeasurementSpecification = SpdmMeasurementSpecification::DMTF;
const ID: u32 = 0xFFFE_0102;
const OTHER: u32 = 0xFFFD_0203;
/// Blocks of measurements known from `n` on, transcripts of the connection (1), of another session (2) and of the session (3), slot 1 provisioned.
macro_rules! responder {
    ($r:ident, $n:ident = $state:expr, $v:literal) => {
        rctx!($r);
        install_hash();
        install_sign();
        install_measurements();
        install_random();
        let $n: u8 = $state;
        $r.common.runtime_info.set_connection_state(SpdmConnectionState::read_bytes(&[$n]).unwrap());
        $r.common.runtime_info.need_measurement_signature = nd::any();
        $r.common.config_info.runtime_content_change_support = nd::any();
        let changed: u8 = nd::any();
        nd::assume(changed < 4);
        $r.common.runtime_info.content_changed = SpdmMeasurementContentChanged::from_bits(changed << 4).unwrap();
        let g = &mut $r.common.negotiate_info;
        g.spdm_version_sel = ver($v);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
        g.measurement_hash_sel = MEAS;
        g.measurement_specification_sel = SPEC;
        $r.common.runtime_info.digest_context_l1l2 = spdmlib::crypto::hash::hash_ctx_init(HASH);
        for (i, s) in [OTHER, ID].into_iter().enumerate() {
            $r.common.session[i].setup(s).unwrap();
            $r.common.session[i].runtime_info.digest_context_l1l2 = spdmlib::crypto::hash::hash_ctx_init(HASH);
        }
        $r.common.provision_info.my_cert_chain[1] = Some(SpdmCertChainBuffer::default());
        unsafe { BLOCKS = nd::any() };
    };
}
/// What is signed: the prefix of SPDM 1.2, the purpose, the hash of the transcript.
fn signed(p: usize, digest: u32) -> u8 {
    match p {
        0..=63 => b"dmtf-spdm-v1.2.*"[p % 16],
        64..=99 => b"\0\0\0\0\0\0responder-measurements signing"[p - 64],
        _ => bytes_of(digest)[p - 100],
    }
}
/// Request `$op` (0 count, 0xff all, else one index) with attributes `$a` of a device with records of `$rec` bytes.
macro_rules! measure {
    ($state:literal, $v:literal, $len:literal, $a:literal, $op:literal, $rec:literal, $session:expr) => {{
        responder!(r, n = $state, $v);
        unsafe {
            RECORD_LEN = $rec;
            if $op != 0 && $op != 0xff {
                BLOCKS = $op + ($state - 3);
            }
        }
        let mut m: [u8; $len] = nd::any();
        m[..4].copy_from_slice(&[$v, 0xE0, $a, $op]);
        let sign = $a & 1 == 1;
        let slot = if $len == 37 {
            m[$len - 1] = 1;
            1
        } else {
            0
        };
        if sign && $len < 37 {
            r.common.provision_info.my_cert_chain[0] = Some(SpdmCertChainBuffer::default());
        }
        let s: Option<u32> = $session;
        let blocks = unsafe { BLOCKS };
        let change = if r.common.config_info.runtime_content_change_support && $v >= 0x12 { r.common.runtime_info.content_changed.bits() } else { 0 };
        let ok = r.handle_spdm_measurement(s, &m).is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0xE0 && call(0).session == s, "transcripts end");
        for k in 0..times(COLLECT) {
            let k = call(nth(COLLECT, k));
            assert!(k.head[..3] == [$v, SPEC.bits(), MEAS.bits() as u8] && (k.arg == 0 || k.arg == $op), "the measurements asked for");
        }
        let rec = if $op == 0 { 0 } else { $rec };
        let f = |p: usize| match p {
            0 => $v,
            1 => 0x60,
            2 => if $op == 0 { blocks } else { 0 },
            3 => if sign { slot | change } else { 0 },
            4 => if $op == 0 { 0 } else { blocks },
            5 => rec as u8,
            6 | 7 => 0,
            _ if p < 8 + rec => unsafe { RECORD[p - 8] },
            _ if p < 40 + rec => unsafe { RND[p - 8 - rec] },
            _ if p < 42 + rec => 0,
            _ => unsafe { SIG[p - 42 - rec] },
        };
        let len = 42 + rec;
        assert!(call(only(RAND)).len == 32, "a random nonce of 32 bytes");
        let (b, x) = (nth(APPEND_M, 1), only(SENT));
        assert!(times(APPEND_M) == 2 && is_call(nth(APPEND_M, 0), APPEND_M, s, &m), "the request, whole");
        assert!(is_bytes(b, APPEND_M, s, len, f), "the response up to the signature");
        assert!(call(x).arg == 0 && call(x).ok == ok, "outcome reported");
        if sign {
            let (d, e) = (hash_log(3), hash_log(4));
            let (g, q) = (only(SIGN), only(RESET_M));
            assert!(d.op == Op::Dup && d.arg == if s.is_none() { 1 } else { 3 } && e.op == Op::Final && e.ctx == d.ctx, "hash of that transcript, of a copy");
            assert!(b < g && is_bytes(g, SIGN, None, 132, |p| signed(p, digest_tag(d.ctx))), "signed for this purpose");
            assert!(call(g).arg == (HASH.bits() << 16 | ASYM.bits()) as usize, "with the negotiated algorithms");
            assert!(q > g && call(q).session == s, "the transcript ends");
            assert!(is_bytes(x, SENT, s, len + 64, f), "MEASUREMENTS, signed");
        } else {
            assert!(times(RESET_M) == 0 && times(SIGN) == 0 && is_bytes(x, SENT, s, len, f), "MEASUREMENTS");
        }
        cover!(true, "done");
    }};
}
macro_rules! fails {
    ($v:literal, $len:literal, $op:literal, $at:expr, $hash:literal, $session:expr) => {{
        responder!(r, n = 5, $v);
        unsafe {
            RECORD_LEN = 8;
            FAIL = $at;
            HASH_FAIL = $hash;
        }
        unsafe { BLOCKS = 7 };
        let mut m: [u8; $len] = nd::any();
        m[..4].copy_from_slice(&[$v, 0xE0, ($len > 4) as u8, $op]);
        if $len == 37 {
            m[$len - 1] = 1;
        }
        let s: Option<u32> = $session;
        let ok = r.handle_spdm_measurement(s, &m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, s, $v, UNSPECIFIED) && ok == call(last).ok, "ERROR alone");
        for i in 0..last {
            assert!(call(i).what != SENT, "nothing else sent");
        }
        cover!(true, "done");
    }};
}
macro_rules! refused {
    ($len:literal, $attr:literal, $slot:expr, $op:expr, $code:literal, $session:expr) => {{
        responder!(r, n = if $len > 3 { 6 } else { nd::any() }, 0x12);
        nd::assume(n <= 6);
        let mut m: [u8; $len] = nd::any();
        let op: u8 = $op;
        if $len > 3 {
            m[..4].copy_from_slice(&[0x12, 0xE0, $attr, op]);
            if $len == 37 {
                m[$len - 1] = $slot;
            }
        } else if $len > 0 {
            nd::assume(n < 3 || m[0] != 0x12);
        }
        unsafe { BLOCKS = 2 };
        let s: Option<u32> = $session;
        let ok = r.handle_spdm_measurement(s, &m).is_ok();
        let last = called() - 1;
        let code = if n < 3 { UNEXPECTED } else { $code };
        assert!(sent_error(last, s, 0x12, code) && ok == call(last).ok, "ERROR alone");
        for i in 0..last {
            assert!(call(i).what != SENT && call(i).what != SIGN && call(i).what != APPEND_M, "nothing recorded, signed or sent");
        }
        cover!(true, "done");
    }};
}
harnesses! {
    /// @fns: ResponderContext::write_spdm_measurement_response, ResponderContext::generate_measurement_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn all_signed() { measure!(3, 0x12, 37, 1, 0xff, 16, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response, ResponderContext::generate_measurement_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn all_signed_session() { measure!(4, 0x12, 37, 3, 0xff, 5, Some(ID)) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn all() { measure!(5, 0x12, 4, 0, 0xff, 16, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn one_session() { measure!(6, 0x12, 4, 2, 0x07, 9, Some(ID)) }
    /// @fns: ResponderContext::write_spdm_measurement_response, ResponderContext::generate_measurement_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn one_signed() { measure!(4, 0x12, 37, 1, 0xfe, 16, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn count() { measure!(4, 0x12, 4, 0, 0, 16, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response, ResponderContext::generate_measurement_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn count_signed() { measure!(5, 0x12, 37, 1, 0, 16, Some(ID)) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn all_10() { measure!(6, 0x10, 4, 0, 0xff, 16, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn one_11() { measure!(3, 0x11, 4, 0, 0x01, 16, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn device_fails() { fails!(0x12, 37, 0xff, (COLLECT, 0), -1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn device_fails_all() { fails!(0x12, 37, 0xff, (COLLECT, 1), -1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn device_fails_one() { fails!(0x11, 4, 3, (COLLECT, 1), -1, Some(ID)) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn random_fails() { fails!(0x12, 37, 0, (RAND, 0), -1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn request_fails() { fails!(0x12, 37, 0, (APPEND_M, 0), -1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn response_fails() { fails!(0x12, 4, 0, (APPEND_M, 1), -1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn response_fails_signed() { fails!(0x12, 37, 0, (APPEND_M, 1), -1, Some(ID)) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn sign_fails() { fails!(0x12, 37, 0, (SIGN, 0), -1, Some(ID)) }
    /// @fns: ResponderContext::generate_measurement_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn hash_fails() { fails!(0x12, 37, 0, NO, 4, None) }
    /// Hashed transcripts cannot be signed before 1.2.
    /// @fns: ResponderContext::generate_measurement_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn version_11() { fails!(0x11, 37, 0, NO, -1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmGetMeasurementsRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_measurements)]
    #[stubs(responses)]
    #[unwind(35)]
    fn gate() { refused!(2, 0, 0, 0, 0x41, Some(ID)) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(35)]
    fn gate_short() { refused!(0, 0, 0, 0, 1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_short() { refused!(36, 1, 1, 0, 1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_slot() { refused!(37, 1, 2, 0xff, 1, Some(ID)) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_no_slot() { refused!(37, 1, 8, 0xff, 1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_index() { refused!(37, 1, 1, 3, 1, None) }
    /// @fns: ResponderContext::write_spdm_measurement_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_attributes() { refused!(37, 5, 1, 0xff, 1, None) }
}
