//! P17: a responder proves its identity.
//! @level proof
//! @assume hash, random and signature providers are assumed primitives, recorded; transcripts and sending are taken by contract (P11, P14)
use crate::{cx::*, nd, rec::*, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const INVALID: u8 = 1;
const UNEXPECTED: u8 = 4;
const UNSPECIFIED: u8 = 5;
const MISMATCH: u8 = 0x41;
const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
const MEAS: SpdmMeasurementHashAlgo = SpdmMeasurementHashAlgo::TPM_ALG_SHA_512;
const SPEC: SpdmMeasurementSpecification = SpdmMeasurementSpecification::DMTF;
/// A connection that may have an authentication transcript, slots 0 and 2 provisioned.
macro_rules! responder {
    ($r:ident, $n:ident = $state:expr, $v:literal, $a:ident, $b:ident) => {
        rctx!($r);
        install_hash();
        install_sign();
        install_measurements();
        install_random();
        let $n: u8 = $state;
        $r.common.runtime_info.set_connection_state(SpdmConnectionState::read_bytes(&[$n]).unwrap());
        let g = &mut $r.common.negotiate_info;
        g.spdm_version_sel = ver($v);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
        g.measurement_hash_sel = MEAS;
        g.measurement_specification_sel = SPEC;
        g.rsp_capabilities_sel = SpdmResponseCapabilityFlags::CHAL_CAP | SpdmResponseCapabilityFlags::MEAS_CAP_SIG;
        $r.common.runtime_info.digest_context_m1m2 = spdmlib::crypto::hash::hash_ctx_init(HASH);
        let ($a, $b): ([u8; 9], [u8; 7]) = (nd::any(), nd::any());
        $r.common.provision_info.my_cert_chain[0] = Some(chain(&$a));
        $r.common.provision_info.my_cert_chain[2] = Some(chain(&$b));
    };
}
fn chain(b: &[u8]) -> SpdmCertChainBuffer {
    let mut c = SpdmCertChainBuffer::default();
    c.data_size = b.len() as u16;
    c.data[..b.len()].copy_from_slice(b);
    c
}
/// What is signed: the prefix of SPDM 1.2, the purpose, the hash of the transcript.
fn signed(p: usize, purpose: &[u8; 36], digest: u32) -> u8 {
    match p {
        0..=63 => b"dmtf-spdm-v1.2.*"[p % 16],
        64..=99 => purpose[p - 64],
        _ => bytes_of(digest)[p - 100],
    }
}
macro_rules! challenge {
    ($state:literal, $slot:literal, $kind:literal) => {{
        responder!(r, n = $state, 0x12, a, b);
        let mut m: [u8; 36] = nd::any();
        m[..4].copy_from_slice(&[0x12, 0x83, $slot, $kind]);
        let ok = r.handle_spdm_challenge(&m).is_ok();
        let c: &[u8] = if $slot == 0 { &a } else { &b };
        assert!(call(0).what == RESET_VIA && call(0).arg == 0x83, "transcripts end");
        assert!(times(SUMMARY) == ($kind != 0) as usize, "a summary if asked for");
        if $kind != 0 {
            let k = call(only(SUMMARY));
            assert!(k.arg == HASH.bits() as usize && k.head[..3] == [SPEC.bits(), MEAS.bits() as u8, $kind], "the summary asked for");
        }
        let h = hash_log(1);
        assert!(h.op == Op::All && h.arg == HASH.bits() as usize && h.len == c.len() && h.probe == probe(c), "hash of the chain in that slot");
        let (d, e) = (hash_log(2), hash_log(3));
        assert!(d.op == Op::Dup && d.arg == 1 && e.op == Op::Final && e.ctx == d.ctx, "transcript hash, of a copy");
        let sum = if $kind == 0 { 0 } else { 32 };
        let f = |p: usize| match p {
            0..=2 => [0x12, 3, $slot][p],
            3 => 1,
            4..=35 => bytes_of(digest_tag(0x1001))[p - 4],
            36..=67 => unsafe { RND[p - 36] },
            _ if p < 68 + sum => unsafe { SUM[p - 68] },
            _ if p < 70 + sum => 0,
            _ => unsafe { SIG[p - 70 - sum] },
        };
        let len = 70 + sum + 64;
        // the slot mask is not part of this property
        assert!(is_call(nth(APPEND_C, 0), APPEND_C, None, &m), "the request, whole");
        assert!(call(only(RAND)).len == 32, "a random nonce of 32 bytes");
        let skip = unsafe { PROBE } == 3;
        let (b, s, x) = (nth(APPEND_C, 1), only(SIGN), only(SENT));
        assert!(skip || is_bytes(b, APPEND_C, None, len - 64, f), "the response up to the signature");
        assert!(is_bytes(s, SIGN, None, 132, |p| signed(p, b"\0\0\0\0responder-challenge_auth signing", digest_tag(d.ctx))), "signed for this purpose");
        assert!(call(s).arg == (HASH.bits() << 16 | ASYM.bits()) as usize, "with the negotiated algorithms");
        assert!(times(APPEND_C) == 2 && b < s && only(RESET_B) > b && only(RESET_C) > s, "the transcript ends");
        assert!(skip || is_bytes(x, SENT, None, len, f), "CHALLENGE_AUTH");
        assert!(call(x).ok == ok, "outcome reported");
        cover!(true, "done");
    }};
}
macro_rules! fails {
    ($ver:literal, $kind:literal, $at:expr, $hash:literal) => {{
        responder!(r, n = 5, $ver, a, b);
        unsafe {
            FAIL = $at;
            HASH_FAIL = $hash;
        }
        let mut m: [u8; 36] = nd::any();
        m[..4].copy_from_slice(&[$ver, 0x83, 0, $kind]);
        let ok = r.handle_spdm_challenge(&m).is_ok();
        let last = called() - 1;
        assert!(sent_error(last, None, $ver, UNSPECIFIED) && ok == call(last).ok, "ERROR alone");
        for i in 0..last {
            assert!(call(i).what != SENT, "nothing else sent");
        }
        cover!(true, "done");
    }};
}
macro_rules! refused {
    ($len:literal, $param:expr, $caps:expr, $code:literal) => {{
        responder!(r, n = if $len > 3 { 5 } else { nd::any() }, 0x12, a, b);
        nd::assume(n <= 6);
        let mut m: [u8; $len] = nd::any();
        let q: [u8; 2] = $param;
        if $len > 3 {
            m[..4].copy_from_slice(&[0x12, 0x83, q[0], q[1]]);
        } else if $len > 0 {
            nd::assume(n < 3 || m[0] != 0x12 && m[0] <= 0x12);
        }
        r.common.negotiate_info.rsp_capabilities_sel = $caps;
        let ok = r.handle_spdm_challenge(&m).is_ok();
        let last = called() - 1;
        let code = if n < 3 { UNEXPECTED } else { $code };
        assert!(sent_error(last, None, 0x12, code) && ok == call(last).ok, "ERROR alone");
        for i in 0..last {
            assert!(call(i).what != SENT && call(i).what != SIGN && call(i).what != APPEND_C, "nothing recorded, signed or sent");
        }
        cover!(true, "done");
    }};
}
const CAPS: SpdmResponseCapabilityFlags = SpdmResponseCapabilityFlags::MEAS_CAP_SIG;
harnesses! {
    /// @fns: ResponderContext::write_spdm_challenge_response, ResponderContext::generate_challenge_auth_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn challenge() { challenge!(3, 0, 0) }
    /// @fns: ResponderContext::write_spdm_challenge_response, ResponderContext::generate_challenge_auth_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn challenge_tcb() { challenge!(4, 2, 1) }
    /// @fns: ResponderContext::write_spdm_challenge_response, ResponderContext::generate_challenge_auth_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn challenge_all() { challenge!(6, 0, 0xff) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn summary_fails() { fails!(0x12, 1, (SUMMARY, 0), -1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn request_fails() { fails!(0x12, 0, (APPEND_C, 0), -1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn random_fails() { fails!(0x12, 0, (RAND, 0), -1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn response_fails() { fails!(0x12, 0, (APPEND_C, 1), -1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn sign_fails() { fails!(0x12, 0, (SIGN, 0), -1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn chain_hash_fails() { fails!(0x12, 0, NO, 1) }
    /// @fns: ResponderContext::generate_challenge_auth_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn transcript_hash_fails() { fails!(0x12, 0, NO, 3) }
    /// Hashed transcripts cannot be signed before 1.2.
    /// @fns: ResponderContext::generate_challenge_auth_signature
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn version_11() { fails!(0x11, 0, NO, -1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_challenge)]
    #[stubs(responses)]
    #[unwind(35)]
    fn gate() { refused!(2, [0, 0], CAPS, 0x41) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(35)]
    fn gate_short() { refused!(0, [0, 0], CAPS, 1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_short() { refused!(35, [0, 0], CAPS, 1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_slot() { refused!(36, [1, 0], CAPS, 1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_no_slot() { refused!(36, [8, 1], CAPS, 1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_summary() { refused!(36, [0, 1], SpdmResponseCapabilityFlags::CHAL_CAP, 1) }
    /// @fns: ResponderContext::write_spdm_challenge_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(98)]
    fn refused_kind() { refused!(36, [0, 2], CAPS, 1) }
}
