//! P24: a requester's side of negotiation.
//! @level proof
//! @assume transcripts, sending and receiving are taken by contract (P11, P12, P29); message decoders too (P09, P10)
use crate::{contracts::*, cx::*, nd, rec::*, spy::*};
use codec::{Codec, Reader, Writer};
use spdmlib::common::opaque::*;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;

fn own_versions(q: &mut RequesterContext) -> [u8; 3] {
    let v: [u8; 3] = nd::any();
    nd::assume(v[0] >= 0x10 && v[0] <= 0x12 && v[1] >= 0x10 && v[1] <= 0x12 && v[2] >= 0x10 && v[2] <= 0x12);
    q.common.config_info.spdm_version = [ver(v[0]), ver(v[1]), ver(v[2])];
    v
}
/// Request of `$code` first, then its answer; nothing else up to call 3.
macro_rules! exchanged {
    ($code:literal, $len:expr, $f:expr) => {{
        assert!(call(0).what == RESET_VIA && call(0).arg == $code && call(0).session == None, "transcripts end");
        assert!(is_bytes(1, SENT, None, $len, $f), "the request");
        assert!(call(2).what == RECEIVED && call(2).arg == 0, "then its answer is awaited");
    }};
}
/// Both messages, whole, are in the transcript of the negotiation.
macro_rules! recorded {
    ($len:expr, $f:expr, $n:expr) => {
        assert!(called() == 5 && is_bytes(3, APPEND_A, None, $len, $f) && is_ans(4, APPEND_A, None, $n), "the transcript holds request and response")
    };
}
macro_rules! version {
    ($n:literal, $fail:expr) => {{
        qctx!(q);
        let own = own_versions(q);
        unsafe { FAIL = $fail };
        let mut m: [u8; 12] = nd::any();
        m[0] = 0x10;
        m[1] = 0x04;
        m[5] = $n;
        unsafe { VERS = ($n, [m[7], m[9], m[11]]) };
        ans(m, 6 + 2 * $n);
        q.common.runtime_info.need_measurement_summary_hash = true;
        let ok = q.send_receive_spdm_version().is_ok();
        let listed = |v: u8| m[7] == v || $n > 1 && m[9] == v || $n > 2 && m[11] == v;
        let both = |v: u8| listed(v) && (own[0] == v || own[1] == v || own[2] == v);
        let want = if both(0x12) { 0x12 } else if both(0x11) { 0x11 } else if both(0x10) { 0x10 } else { 0 };
        let req = |p: usize| [0x10, 0x84, 0, 0][p];
        if $fail == NO {
            exchanged!(0x84, 4, req);
            assert!(ok == (want != 0), "negotiated exactly when a version is common");
            let sel = q.common.negotiate_info.spdm_version_sel;
            if ok {
                assert!(sel.get_u8() == want, "the highest version both support");
                assert!(!q.common.runtime_info.need_measurement_summary_hash, "the connection starts over");
                recorded!(4, req, 6 + 2 * $n);
            } else {
                assert!(called() == 3 && matches!(sel, SpdmVersion::Unknown(_)), "no version selected, nothing recorded");
            }
        } else {
            assert!(!ok, "failure reported");
            assert!($fail.0 == APPEND_A || times(APPEND_A) == 0, "nothing recorded");
        }
        cover!(ok || $fail != NO, "negotiated");
        cover!(!ok, "nothing in common");
    }};
}
macro_rules! capabilities {
    ($v:literal, $len:literal, $fail:expr) => {{
        qctx!(q);
        unsafe { FAIL = $fail };
        let (flags, ct, dts, mms): (u32, u8, u32, u32) = (nd::any(), nd::any(), nd::any(), nd::any());
        let flags = SpdmRequestCapabilityFlags::from_bits_truncate(flags);
        let c = &mut q.common.config_info;
        c.req_capabilities = flags;
        c.req_ct_exponent = ct;
        c.data_transfer_size = dts;
        c.max_spdm_msg_size = mms;
        q.common.negotiate_info.spdm_version_sel = ver($v);
        let theirs: (u8, u32, u32, u32) = nd_caps();
        unsafe { CAPS = theirs };
        let mut m: [u8; 20] = nd::any();
        m[..2].copy_from_slice(&[$v, 0x61]);
        ans(m, $len);
        let ok = q.send_receive_spdm_capability().is_ok();
        let f = |p: usize| match p {
            0..=7 => [$v, 0xE1, 0, 0, 0, ct, 0, 0][p],
            8..=11 => flags.bits().to_le_bytes()[p - 8],
            12..=15 => dts.to_le_bytes()[p - 12],
            _ => mms.to_le_bytes()[p - 16],
        };
        let n = if $v == 0x10 { 4 } else if $v == 0x11 { 12 } else { 20 };
        let g = &q.common.negotiate_info;
        if $fail == NO {
            assert!(ok, "accepted");
            exchanged!(0xE1, n, f);
            recorded!(n, f, $len);
            assert!(g.req_capabilities_sel == flags && g.req_ct_exponent_sel == ct, "own capabilities");
            assert!(g.rsp_capabilities_sel == SpdmResponseCapabilityFlags::from_bits_truncate(theirs.1) && g.rsp_ct_exponent_sel == theirs.0, "the responder's capabilities");
            if $v >= 0x12 {
                assert!(g.req_data_transfer_size_sel == dts && g.req_max_spdm_msg_size_sel == mms, "own sizes");
                assert!(g.rsp_data_transfer_size_sel == theirs.2 && g.rsp_max_spdm_msg_size_sel == theirs.3, "the responder's sizes");
            }
        } else {
            assert!(!ok, "failure reported");
            assert!($fail.0 == APPEND_A || times(APPEND_A) == 0, "nothing recorded");
        }
        cover!(true, "done");
    }};
}
fn nd_caps() -> (u8, u32, u32, u32) {
    (nd::any(), nd::any(), nd::any(), nd::any())
}
macro_rules! algorithms {
    ($v:literal, $n:literal, $fail:expr) => {{
        qctx!(q);
        unsafe { FAIL = $fail };
        let (spec, fmt, asym, hash, dhe, aead, rasym, ks): (u8, u8, u32, u32, u16, u16, u16, u16) =
            (nd::any(), nd::any(), nd::any(), nd::any(), nd::any(), nd::any(), nd::any(), nd::any());
        let c = &mut q.common.config_info;
        c.measurement_specification = SpdmMeasurementSpecification::from_bits_truncate(spec);
        c.opaque_support = SpdmOpaqueSupport::from_bits_truncate(fmt);
        c.base_asym_algo = SpdmBaseAsymAlgo::from_bits_truncate(asym);
        c.base_hash_algo = SpdmBaseHashAlgo::from_bits_truncate(hash);
        c.dhe_algo = SpdmDheAlgo::from_bits_truncate(dhe);
        c.aead_algo = SpdmAeadAlgo::from_bits_truncate(aead);
        c.req_asym_algo = SpdmReqAsymAlgo::from_bits_truncate(rasym);
        c.key_schedule_algo = SpdmKeyScheduleAlgo::from_bits_truncate(ks);
        let (spec, fmt, asym, hash) = (c.measurement_specification.bits(), c.opaque_support.bits(), c.base_asym_algo.bits(), c.base_hash_algo.bits());
        let offer = [dhe & defined(2), aead & defined(3), rasym & defined(4), ks & defined(5)];
        q.common.negotiate_info.spdm_version_sel = ver($v);
        // a well formed answer selects at most one of each (P10)
        let few = |x: u32| x & x.wrapping_sub(1) == 0;
        let (m_spec, m_fmt, m_hash, sel_asym, sel_hash, sel): (u8, u8, u32, u32, u32, [u16; 4]) =
            (nd::any(), nd::any(), nd::any(), nd::any(), nd::any(), nd::any());
        let (m_spec, m_fmt, m_hash, sel_asym, sel_hash) = (m_spec & 1, if $v >= 0x12 { m_fmt & 2 } else { 0 }, m_hash & 0xff, sel_asym & 0xff, sel_hash & 7);
        let sel = [sel[0] & defined(2), sel[1] & defined(3), sel[2] & defined(4), sel[3] & defined(5)];
        nd::assume(few(m_hash) && few(sel_asym) && few(sel_hash) && few(sel[0] as u32) && few(sel[1] as u32) && few(sel[2] as u32) && few(sel[3] as u32));
        unsafe { ALGS = (m_spec, m_fmt, m_hash, sel_asym, sel_hash, $n, sel) };
        let mut m: [u8; 52] = nd::any();
        m[..2].copy_from_slice(&[$v, 0x63]);
        ans(m, 36 + 4 * $n);
        let ok = q.send_receive_spdm_algorithm().is_ok();
        let (count, len) = if $v >= 0x11 { (4, 48) } else { (0, 32) };
        let f = |p: usize| match p {
            0..=7 => [$v, 0xE3, count, 0, len, 0, spec, if $v >= 0x12 { fmt } else { 0 }][p],
            8..=11 => asym.to_le_bytes()[p - 8],
            12..=15 => hash.to_le_bytes()[p - 12],
            16..=31 => 0,
            _ => {
                let k = (p - 32) / 4;
                match p % 4 {
                    0 => 2 + k as u8,
                    1 => 0x20,
                    2 => offer[k] as u8,
                    _ => (offer[k] >> 8) as u8,
                }
            }
        };
        let g = &q.common.negotiate_info;
        let offered = m_spec & !spec == 0 && m_fmt & !fmt == 0 && sel_asym & !asym == 0 && sel_hash & !hash == 0
            && ($n < 1 || sel[0] & !offer[0] == 0) && ($n < 2 || sel[1] & !offer[1] == 0) && ($n < 3 || sel[2] & !offer[2] == 0) && ($n < 4 || sel[3] & !offer[3] == 0);
        if $fail == NO {
            exchanged!(0xE3, len as usize, f);
            assert!(ok == (offered && sel_asym != 0 && sel_hash != 0), "accepted exactly when only what was offered is selected, and a hash and a signature are");
            if ok {
                recorded!(len as usize, f, 36 + 4 * $n);
                assert!(g.measurement_specification_sel.bits() == m_spec && g.opaque_data_support.bits() == m_fmt && g.measurement_hash_sel.bits() == m_hash, "measurements and opaque data");
                assert!(g.base_asym_sel.bits() == sel_asym && g.base_hash_sel.bits() == sel_hash, "signature and hash");
                assert!($n < 1 || g.dhe_sel.bits() == sel[0], "key exchange");
                assert!($n < 2 || g.aead_sel.bits() == sel[1], "cipher");
                assert!($n < 3 || g.req_asym_sel.bits() == sel[2], "requester signature");
                assert!($n < 4 || g.key_schedule_sel.bits() == sel[3], "key schedule");
            } else {
                assert!(called() == 3, "nothing recorded");
            }
        } else {
            nd::assume(offered && sel_asym != 0 && sel_hash != 0);
            assert!(!ok, "failure reported");
            assert!($fail.0 == APPEND_A || times(APPEND_A) == 0, "nothing recorded");
        }
        cover!(ok || $fail != NO, "accepted");
        cover!(!ok, "refused");
    }};
}
/// Anything but a well formed answer: nothing is recorded or negotiated.
macro_rules! other {
    ($send:ident, $len:literal) => {{
        qctx!(q);
        q.common.negotiate_info.spdm_version_sel = ver(0x12);
        let m: [u8; 4] = nd::any();
        ans(m, $len);
        let e = q.$send().err();
        assert!(called() == 3 && call(1).what == SENT && call(2).what == RECEIVED, "asked once, nothing recorded");
        let g = &q.common.negotiate_info;
        assert!(g.spdm_version_sel == ver(0x12) && g.rsp_capabilities_sel.is_empty() && g.base_hash_sel.is_empty(), "nothing negotiated");
        assert!(e.is_some(), "an error");
        if $len < 2 {
            assert!(e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "no header");
        }
        cover!(true, "done");
    }};
}
harnesses! {
    /// GET_VERSION, a list of one.
    /// @fns: send_receive_spdm_version, encode_spdm_version, handle_spdm_version_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmVersionResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::version_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn version_1() { version!(1, NO) }
    /// A list of two.
    /// @fns: send_receive_spdm_version, encode_spdm_version, handle_spdm_version_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmVersionResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::version_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn version_2() { version!(2, NO) }
    /// A list of three.
    /// @fns: send_receive_spdm_version, encode_spdm_version, handle_spdm_version_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmVersionResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::version_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn version_3() { version!(3, NO) }
    /// The request is not sent.
    /// @fns: send_receive_spdm_version
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmVersionResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::version_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn version_unsent() { version!(1, (SENT, 0)) }
    /// The answer cannot be recorded.
    /// @fns: send_receive_spdm_version, handle_spdm_version_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmVersionResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::version_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn version_unrecorded() { version!(1, (APPEND_A, 1)) }
    /// Any other answer to GET_VERSION.
    /// @fns: send_receive_spdm_version, handle_spdm_version_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmVersionResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_version_rsp)]
    #[stubs(requests)]
    #[unwind(50)]
    fn version_other() { other!(send_receive_spdm_version, 4) }
    /// No answer to speak of.
    /// @fns: send_receive_spdm_version, handle_spdm_version_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmVersionResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_version_rsp)]
    #[stubs(requests)]
    #[unwind(50)]
    fn version_short() { other!(send_receive_spdm_version, 1) }
    /// GET_CAPABILITIES under 1.0.
    /// @fns: send_receive_spdm_capability, encode_spdm_capability, handle_spdm_capability_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCapabilitiesResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::capabilities_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn capabilities_10() { capabilities!(0x10, 12, NO) }
    /// GET_CAPABILITIES under 1.1.
    /// @fns: send_receive_spdm_capability, encode_spdm_capability, handle_spdm_capability_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCapabilitiesResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::capabilities_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn capabilities_11() { capabilities!(0x11, 12, NO) }
    /// GET_CAPABILITIES under 1.2.
    /// @fns: send_receive_spdm_capability, encode_spdm_capability, handle_spdm_capability_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCapabilitiesResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::capabilities_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn capabilities_12() { capabilities!(0x12, 20, NO) }
    /// The answer does not come.
    /// @fns: send_receive_spdm_capability
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCapabilitiesResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::capabilities_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn capabilities_unreceived() { capabilities!(0x12, 20, (RECEIVED, 0)) }
    /// The request cannot be recorded.
    /// @fns: send_receive_spdm_capability, handle_spdm_capability_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCapabilitiesResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::capabilities_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn capabilities_unrecorded() { capabilities!(0x12, 20, (APPEND_A, 0)) }
    /// Any other answer to GET_CAPABILITIES.
    /// @fns: send_receive_spdm_capability, handle_spdm_capability_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCapabilitiesResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_capabilities_rsp)]
    #[stubs(requests)]
    #[unwind(50)]
    fn capabilities_other() { other!(send_receive_spdm_capability, 4) }
    /// NEGOTIATE_ALGORITHMS under 1.0.
    /// @fns: send_receive_spdm_algorithm, encode_spdm_algorithm, handle_spdm_algorithm_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmAlgorithmsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::algorithms_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn algorithms_10() { algorithms!(0x10, 0, NO) }
    /// NEGOTIATE_ALGORITHMS under 1.1, two structures answered.
    /// @fns: send_receive_spdm_algorithm, encode_spdm_algorithm, handle_spdm_algorithm_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmAlgorithmsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::algorithms_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn algorithms_11() { algorithms!(0x11, 2, NO) }
    /// NEGOTIATE_ALGORITHMS under 1.2, all structures answered.
    /// @fns: send_receive_spdm_algorithm, encode_spdm_algorithm, handle_spdm_algorithm_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmAlgorithmsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::algorithms_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn algorithms_12() { algorithms!(0x12, 4, NO) }
    /// The answer cannot be recorded.
    /// @fns: send_receive_spdm_algorithm, handle_spdm_algorithm_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmAlgorithmsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::algorithms_rsp_read)]
    #[stubs(requests)]
    #[unwind(50)]
    fn algorithms_unrecorded() { algorithms!(0x12, 4, (APPEND_A, 1)) }
    /// Any other answer to NEGOTIATE_ALGORITHMS.
    /// @fns: send_receive_spdm_algorithm, handle_spdm_algorithm_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmAlgorithmsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_algorithms_rsp)]
    #[stubs(requests)]
    #[unwind(50)]
    fn algorithms_other() { other!(send_receive_spdm_algorithm, 4) }
}
