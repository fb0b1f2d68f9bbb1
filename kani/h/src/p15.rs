//! P15: a responder's side of negotiation.
//! @level proof
//! @assume transcripts, context reset and certificate chain construction are taken by contract (P11, P12, P16)
use crate::{contracts::*, cx::*, nd, rec::*, spy::*};
use codec::{Codec, Reader, Writer};
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const INVALID: u8 = 1;
const UNEXPECTED: u8 = 4;
const UNSPECIFIED: u8 = 5;
const MISMATCH: u8 = 0x41;
type V = SpdmVersion;
/// The response is this ERROR and nothing else.
fn error(w: &[u8], code: u8) -> bool {
    w.len() == 4 && w[1] == 0x7F && w[2] == code && w[3] == 0
}
fn ver(v: u8) -> V {
    V::read_bytes(&[v]).unwrap_or(V::SpdmVersion10)
}
fn conn(n: u8) -> SpdmConnectionState {
    SpdmConnectionState::read_bytes(&[n]).unwrap()
}
fn own_versions(r: &mut ResponderContext) -> [u8; 3] {
    let v: [u8; 3] = nd::any();
    nd::assume(v[0] >= 0x10 && v[0] <= 0x12 && v[1] >= 0x10 && v[1] <= 0x12 && v[2] >= 0x10 && v[2] <= 0x12);
    r.common.config_info.spdm_version = [ver(v[0]), ver(v[1]), ver(v[2])];
    v
}
macro_rules! version {
    ($len:literal, $fail:expr) => {{
        rctx!(r);
        let own = own_versions(r);
        unsafe { FAIL = $fail };
        let m: [u8; $len] = nd::any();
        nd::assume($len < 1 || m[0] <= 0x12);
        let mut out = [0u8; 64];
        let mut w = Writer::init(&mut out);
        r.write_spdm_version_response(&m, &mut w);
        let o = w.used_slice();
        if $len < 2 {
            assert!(error(o, INVALID) && called() == 0, "too short");
        } else if m[0] != 0x10 {
            assert!(error(o, MISMATCH) && called() == 0, "only under version 1.0");
        } else if $len < 4 {
            assert!(error(o, INVALID) && called() == 1, "too short");
        } else if $fail == NO {
            assert!(o.len() == 12 && o[..6] == [0x10, 0x04, 0, 0, 0, 3], "VERSION with three entries");
            assert!(o[6..12] == [0, own[0], 0, own[1], 0, own[2]], "the versions configured");
            assert!(called() == 4 && call(0).what == RESET_VIA && call(0).arg == 0x84, "transcripts end");
            assert!(call(1).what == RESET_ALL, "everything is forgotten");
            assert!(is_call(2, APPEND_A, None, &m[..4]) && is_call(3, APPEND_A, None, o), "then the transcript holds request and response");
        } else {
            assert!(error(o, UNSPECIFIED), "ERROR alone");
        }
        cover!($len < 2 || o.len() == 12 || $len < 4 || $fail != NO, "done");
    }};
}
const OLD_FLAGS: u32 = 0xff;
macro_rules! capabilities {
    ($ver:literal, $len:literal, $fail:expr) => {{
        rctx!(r);
        let own = own_versions(r);
        unsafe { FAIL = $fail };
        let n: u8 = nd::any();
        nd::assume(n <= 6);
        r.common.runtime_info.set_connection_state(conn(n));
        let (flags, ct, dts, mms): (u32, u8, u32, u32) = (nd::any(), nd::any(), nd::any(), nd::any());
        r.common.config_info.rsp_capabilities = SpdmResponseCapabilityFlags::from_bits_truncate(flags);
        r.common.config_info.rsp_ct_exponent = ct;
        r.common.config_info.data_transfer_size = dts;
        r.common.config_info.max_spdm_msg_size = mms;
        let before = r.common.negotiate_info.spdm_version_sel;
        let mut m: [u8; $len] = nd::any();
        m[0] = $ver;
        let mut out = [0u8; 64];
        let mut w = Writer::init(&mut out);
        r.write_spdm_capability_response(&m, &mut w);
        let o = w.used_slice();
        let offered = own[0] == $ver || own[1] == $ver || own[2] == $ver;
        let size = if $ver >= 0x12 { 20 } else if $ver == 0x11 { 12 } else { 4 };
        let g = &r.common.negotiate_info;
        if n != 1 {
            assert!(error(o, UNEXPECTED) && called() == 0 && g.spdm_version_sel == before, "only right after VERSION");
        } else if $len < 2 || $ver < 0x10 {
            assert!(error(o, INVALID) && g.spdm_version_sel == before, "not a version");
        } else if !offered {
            assert!(error(o, MISMATCH) && called() == 0 && g.spdm_version_sel == before, "only a version offered");
        } else if o[1] == 0x7F {
            assert!(error(o, INVALID) && times(APPEND_A) == 0 || $fail != NO && error(o, UNSPECIFIED), "ERROR alone");
        } else {
            assert!($len >= size && $fail == NO, "complete request");
            assert!(g.spdm_version_sel.get_u8() == $ver, "version of the request");
            assert!(called() == 3 && call(0).what == RESET_VIA && call(0).arg == 0xE1, "transcripts end");
            assert!(is_call(1, APPEND_A, None, &m[..size]) && is_call(2, APPEND_A, None, o), "transcript of request and response");
            // recorded of the requester
            if $ver >= 0x11 {
                assert!(g.req_ct_exponent_sel == m[5], "the requester's timeout exponent");
                assert!(g.req_capabilities_sel == SpdmRequestCapabilityFlags::from_bits_truncate(le32(&m[8..12])), "the requester's capabilities");
            } else {
                assert!(g.req_capabilities_sel.is_empty(), "no capabilities in 1.0");
            }
            if $ver >= 0x12 {
                assert!(g.req_data_transfer_size_sel == le32(&m[12..16]) && g.req_max_spdm_msg_size_sel == le32(&m[16..20]), "the requester's sizes");
                assert!(g.rsp_data_transfer_size_sel == dts && g.rsp_max_spdm_msg_size_sel == mms, "own sizes");
            } else {
                assert!(g.req_data_transfer_size_sel == 0, "no sizes before 1.2");
            }
            assert!(g.rsp_capabilities_sel.bits() == r.common.config_info.rsp_capabilities.bits() && g.rsp_ct_exponent_sel == ct, "own capabilities");
            // answered
            assert!(o.len() == if $ver >= 0x12 { 20 } else { 12 } && o[..4] == [$ver, 0x61, 0, 0] && o[4] == 0 && o[5] == ct && o[6] == 0 && o[7] == 0, "CAPABILITIES");
            assert!(le32(&o[8..12]) == g.rsp_capabilities_sel.bits(), "own capabilities sent");
            if $ver >= 0x12 {
                assert!(le32(&o[12..16]) == dts && le32(&o[16..20]) == mms, "own sizes sent");
            }
        }
        cover!($fail != NO || $len < size || o[1] == 0x61, "answered");
    }};
}
fn pick(sel: u32, offer: u32, own: u32) -> bool {
    let common = offer & own;
    sel & !common == 0 && sel & sel.wrapping_sub(1) == 0 && (sel == 0) == (common == 0)
}
#[allow(unused_comparisons)]
macro_rules! algorithms {
    ($ver:literal, [$($ty:literal),*], $cut:literal, $fail:expr) => {{
        rctx!(r);
        unsafe { FAIL = $fail };
        r.common.runtime_info.set_connection_state(conn(2));
        let ty: &[u8] = &[$($ty),*];
        let own: [u32; 8] = nd::any();
        {
            let i = &mut r.common.config_info;
            i.measurement_specification = SpdmMeasurementSpecification::from_bits_truncate(own[0] as u8);
            i.measurement_hash_algo = SpdmMeasurementHashAlgo::from_bits_truncate(own[1]);
            i.base_hash_algo = SpdmBaseHashAlgo::from_bits_truncate(own[2]);
            i.base_asym_algo = SpdmBaseAsymAlgo::from_bits_truncate(own[3]);
            i.dhe_algo = SpdmDheAlgo::from_bits_truncate(own[4] as u16);
            i.aead_algo = SpdmAeadAlgo::from_bits_truncate(own[5] as u16);
            i.req_asym_algo = SpdmReqAsymAlgo::from_bits_truncate(own[6] as u16);
            i.key_schedule_algo = SpdmKeyScheduleAlgo::from_bits_truncate(own[7] as u16);
            i.opaque_support = SpdmOpaqueSupport::from_bits_truncate(nd::any());
            // left over from a negotiation that failed
            let g = &mut r.common.negotiate_info;
            g.spdm_version_sel = ver($ver);
            g.dhe_sel = SpdmDheAlgo::from_bits_truncate(nd::any());
            g.aead_sel = SpdmAeadAlgo::from_bits_truncate(nd::any());
            g.req_asym_sel = SpdmReqAsymAlgo::from_bits_truncate(nd::any());
            g.key_schedule_sel = SpdmKeyScheduleAlgo::from_bits_truncate(nd::any());
            g.base_hash_sel = SpdmBaseHashAlgo::from_bits_truncate(nd::any());
        }
        const SIZE: usize = 32 + 4 * { let t: &[u8] = &[$($ty),*]; t.len() };
        let mut m: [u8; SIZE - $cut] = nd::any();
        m[0] = $ver;
        if SIZE > 32 {
            m[2] = ty.len() as u8;
            for i in 0..ty.len() {
                m[32 + 4 * i] = ty[i];
            }
        }
        let mut out = [0u8; 64];
        let mut w = Writer::init(&mut out);
        r.write_spdm_algorithm(&m, &mut w);
        let o = w.used_slice();
        let g = &r.common.negotiate_info;
        if o[1] == 0x7F {
            assert!(error(o, INVALID) && times(APPEND_A) == 0 || $fail != NO && error(o, UNSPECIFIED), "ERROR alone");
        } else {
            assert!($fail == NO && $cut == 0, "complete request");
            assert!(called() == 4 && call(0).what == RESET_VIA && call(0).arg == 0xE3, "transcripts end");
            assert!(is_call(nth(APPEND_A, 0), APPEND_A, None, &m) && is_call(nth(APPEND_A, 1), APPEND_A, None, o) && times(CHAIN) == 1, "transcript of request and response");
            let bits = [
                g.measurement_specification_sel.bits() as u32, g.measurement_hash_sel.bits(), g.base_hash_sel.bits(), g.base_asym_sel.bits(),
                g.dhe_sel.bits() as u32, g.aead_sel.bits() as u32, g.req_asym_sel.bits() as u32, g.key_schedule_sel.bits() as u32,
            ];
            let i = &r.common.config_info;
            assert!(pick(bits[0], m[6] as u32, i.measurement_specification.bits() as u32), "measurement specification");
            assert!(bits[1] == i.measurement_hash_algo.bits(), "own measurement hash");
            assert!(pick(bits[2], le32(&m[12..16]), i.base_hash_algo.bits()), "one common hash");
            assert!(pick(bits[3], le32(&m[8..12]), i.base_asym_algo.bits()), "one common signature algorithm");
            let conf = [i.dhe_algo.bits(), i.aead_algo.bits(), i.req_asym_algo.bits(), i.key_schedule_algo.bits()];
            for t in 2..6usize {
                let mut offer = 0u16;
                for k in 0..ty.len() {
                    if ty[k] as usize == t {
                        offer = le16(&m[34 + 4 * k..36 + 4 * k]);
                    }
                }
                assert!(pick(bits[t + 2], offer as u32, conf[t - 2] as u32), "one common algorithm of each kind, of this request");
            }
            let opaque = if $ver >= 0x12 { m[7] & i.opaque_support.bits() } else { 0 };
            assert!(g.opaque_data_support.bits() == opaque, "common opaque format");
            // and says so
            assert!(o[..2] == [$ver, 0x63], "ALGORITHMS");
            assert!(o[6] == bits[0] as u8 && le32(&o[8..12]) == bits[1] && le32(&o[12..16]) == bits[3] && le32(&o[16..20]) == bits[2], "the selection is sent");
            if $ver >= 0x11 {
                assert!(o[2] == 4 && o.len() == 52 && le16(&o[4..6]) == 52, "with four structures");
                for t in 0..4 {
                    assert!(o[36 + 4 * t..38 + 4 * t] == [t as u8 + 2, 0x20] && le16(&o[38 + 4 * t..40 + 4 * t]) as u32 == bits[t + 4], "the selection is sent");
                }
            } else {
                assert!(o.len() == 36 && le16(&o[4..6]) == 36, "without structures");
            }
            if $ver >= 0x12 {
                assert!(o[7] == opaque, "the selection is sent");
            }
        }
        cover!($fail != NO || $cut != 0 || o[1] == 0x63, "answered");
    }};
}
/// Refused unless in state 2 and under the negotiated version.
macro_rules! gate {
    ($ver:literal, $len:literal) => {{
        rctx!(r);
        let n: u8 = nd::any();
        nd::assume(n <= 6);
        r.common.runtime_info.set_connection_state(conn(n));
        r.common.negotiate_info.spdm_version_sel = ver($ver);
        let m: [u8; $len] = nd::any();
        nd::assume(n != 2 || $len < 2 || m[0] <= 0x12 && m[0] != $ver);
        let mut out = [0u8; 64];
        let mut w = Writer::init(&mut out);
        r.write_spdm_algorithm(&m, &mut w);
        let o = w.used_slice();
        let code = if n != 2 { UNEXPECTED } else if $len < 2 { INVALID } else { MISMATCH };
        assert!(error(o, code) && called() == 0, "only right after CAPABILITIES, under the negotiated version");
        assert!(r.common.negotiate_info.base_hash_sel.is_empty() && r.common.negotiate_info.spdm_version_sel.get_u8() == $ver, "nothing selected");
        cover!(n != 2, "refused");
    }};
}
harnesses! {
    /// @fns: ResponderContext::write_spdm_version_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn version() { version!(4, NO) }
    /// @fns: ResponderContext::write_spdm_version_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn version_trailing() { version!(6, NO) }
    /// @fns: ResponderContext::write_spdm_version_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn version_short() { version!(3, NO) }
    /// @fns: ResponderContext::write_spdm_version_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn version_shorter() { version!(1, NO) }
    /// A response that cannot be recorded is not given.
    /// @fns: ResponderContext::write_spdm_version_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn version_request_fails() { version!(4, (APPEND_A, 0)) }
    /// @fns: ResponderContext::write_spdm_version_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn version_response_fails() { version!(4, (APPEND_A, 1)) }
    /// @fns: ResponderContext::write_spdm_capability_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn capabilities_10() { capabilities!(0x10, 4, NO) }
    /// @fns: ResponderContext::write_spdm_capability_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn capabilities_11() { capabilities!(0x11, 12, NO) }
    /// @fns: ResponderContext::write_spdm_capability_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn capabilities_12() { capabilities!(0x12, 20, NO) }
    /// @fns: ResponderContext::write_spdm_capability_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn capabilities_12_short() { capabilities!(0x12, 19, NO) }
    /// @fns: ResponderContext::write_spdm_capability_response
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(8)]
    fn capabilities_fails() { capabilities!(0x12, 20, (APPEND_A, 1)) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmNegotiateAlgorithmsRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_algorithms)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_gate() { gate!(0x12, 2) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_gate_short() { gate!(0x11, 1) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(spdmlib::common::SpdmContext::construct_my_cert_chain, crate::rec::H::construct_chain)]
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_10() { algorithms!(0x10, [], 0, NO) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(spdmlib::common::SpdmContext::construct_my_cert_chain, crate::rec::H::construct_chain)]
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_12_all() { algorithms!(0x12, [2, 3, 4, 5], 0, NO) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(spdmlib::common::SpdmContext::construct_my_cert_chain, crate::rec::H::construct_chain)]
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_11_some() { algorithms!(0x11, [3, 5], 0, NO) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(spdmlib::common::SpdmContext::construct_my_cert_chain, crate::rec::H::construct_chain)]
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_12_short() { algorithms!(0x12, [2, 3, 4, 5], 1, NO) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(spdmlib::common::SpdmContext::construct_my_cert_chain, crate::rec::H::construct_chain)]
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_request_fails() { algorithms!(0x12, [2], 0, (APPEND_A, 0)) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(spdmlib::common::SpdmContext::construct_my_cert_chain, crate::rec::H::construct_chain)]
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_chain_fails() { algorithms!(0x12, [2], 0, (CHAIN, 0)) }
    /// @fns: ResponderContext::write_spdm_algorithm
    /// @cfg: small
    #[stub(spdmlib::common::SpdmContext::construct_my_cert_chain, crate::rec::H::construct_chain)]
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(transcripts)]
    #[unwind(20)]
    fn algorithms_response_fails() { algorithms!(0x12, [], 0, (APPEND_A, 1)) }
    /// @fns: gen_array_clone
    /// @cfg: small
    #[unwind(6)]
    fn array_clone_structs() {
        let raw: [u8; 4] = nd::any();
        let x = alg_struct_read(&mut Reader::init(&raw)).unwrap_or_default();
        let a: [SpdmAlgStruct; 4] = gen_array_clone(x.clone(), 4);
        let b: [SpdmAlgStruct; 4] = array_clone(x.clone(), 4);
        for i in 0..4 {
            assert!(a[i].alg_type == x.alg_type && a[i].alg_supported == x.alg_supported, "every element is the one given");
            assert!(b[i].alg_type == a[i].alg_type && b[i].alg_supported == a[i].alg_supported, "as the contract says");
        }
        cover!(raw[0] == 3, "one kind");
    }
}
