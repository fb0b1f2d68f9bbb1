//! P23: the messages that set up sessions: layout, acceptance, round trip.
//! @level proof
use crate::{cx::*, nd, spy::*};
use codec::{Codec, Reader, Writer};
use core::mem::ManuallyDrop;
use spdmlib::common::opaque::*;
use spdmlib::common::*;
use spdmlib::message::*;
use spdmlib::protocol::*;

const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
const ALL: SpdmResponseCapabilityFlags = SpdmResponseCapabilityFlags::MEAS_CAP_SIG;
/// Peers that agreed on P-256 and SHA-256, whatever else they can do.
macro_rules! peers {
    ($c:ident, $v:expr, $sum:expr, $clear:expr) => {
        ctx!($c);
        unsafe { PROBE = nd::any() };
        let g = &mut $c.negotiate_info;
        g.spdm_version_sel = ver($v);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
        g.dhe_sel = SpdmDheAlgo::SECP_256_R1;
        if $clear {
            g.req_capabilities_sel = SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
            g.rsp_capabilities_sel = SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP;
        }
        $c.runtime_info.need_measurement_summary_hash = $sum;
    };
}
/// At the probe the two agree (or it lies outside).
fn same(a: &[u8], b: &[u8]) -> bool {
    let p = unsafe { PROBE };
    a.len() == b.len() && (p >= a.len() || a[p] == b[p])
}
fn exchange() -> SpdmDheExchangeStruct {
    let k: [u8; 64] = nd::any();
    let mut data = [0; SPDM_MAX_DHE_KEY_SIZE];
    data[..64].copy_from_slice(&k);
    SpdmDheExchangeStruct { data_size: 64, data }
}
fn digest() -> SpdmDigestStruct {
    let k: [u8; 32] = nd::any();
    let mut data = Box::new([0; SPDM_MAX_HASH_SIZE]);
    data[..32].copy_from_slice(&k);
    SpdmDigestStruct { data_size: 32, data }
}
fn signature() -> SpdmSignatureStruct {
    let k: [u8; 64] = nd::any();
    let mut data = [0; SPDM_MAX_ASYM_KEY_SIZE];
    data[..64].copy_from_slice(&k);
    SpdmSignatureStruct { data_size: 64, data }
}
fn opaque<const N: usize>() -> SpdmOpaqueStruct {
    let k: [u8; N] = nd::any();
    let mut o = SpdmOpaqueStruct::default();
    o.data_size = N as u16;
    o.data[..N].copy_from_slice(&k);
    o
}
/// Encoding yields exactly these bytes, and is refused where they do not fit.
macro_rules! encodes {
    ($c:ident, $s:expr, $n:expr, $at:expr) => {{
        const LEN: usize = $n;
        let mut b = [0xA5u8; LEN + 2];
        let mut w = Writer::init(&mut b);
        let r = $s.spdm_encode($c, &mut w);
        assert!(r == Ok(LEN) && w.used() == LEN, "exactly its size");
        let p = unsafe { PROBE };
        let f = $at;
        assert!(p >= LEN || b[p] == f(p), "field in its place");
        assert!(b[LEN] == 0xA5 && b[LEN + 1] == 0xA5, "nothing beyond");
        let mut b = [0u8; LEN - 1];
        assert!($s.spdm_encode($c, &mut Writer::init(&mut b)).is_err(), "does not fit");
        cover!(p == LEN - 1, "last byte");
    }};
}
/// Kinds of summary and whether they can be asked for.
fn kind_ok(kind: u8, flags: SpdmResponseCapabilityFlags) -> bool {
    kind == 0 || (kind == 1 || kind == 0xFF) && (flags.contains(SpdmResponseCapabilityFlags::MEAS_CAP_SIG) || flags.contains(SpdmResponseCapabilityFlags::MEAS_CAP_NO_SIG))
}
macro_rules! kex_req_read {
    ($o:literal, $cut:literal) => {{
        peers!(c, 0x12, false, false);
        c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits_truncate(nd::any());
        const N: usize = 6 + 32 + 64 + 2 + $o;
        let mut m: [u8; N] = nd::any();
        m[102] = $o;
        m[103] = 0;
        let flags = c.negotiate_info.rsp_capabilities_sel;
        let q = ManuallyDrop::new(SpdmKeyExchangeRequestPayload::spdm_read(c, &mut Reader::init(&m[..N - $cut])));
        let want = kind_ok(m[0], flags) && $cut == 0;
        assert!(q.is_some() == want, "exactly the complete requests");
        if let Some(q) = &*q {
            assert!(q.measurement_summary_hash_type.get_u8() == m[0] && q.slot_id == m[1] && q.req_session_id == le16(&m[2..4]) && q.session_policy == m[4], "parameters");
            assert!(same(&q.random.data, &m[6..38]), "random");
            assert!(q.exchange.data_size == 64 && same(&q.exchange.data[..64], &m[38..102]), "exchange data");
            assert!(q.opaque.data_size == $o && same(&q.opaque.data[..$o], &m[104..]), "opaque data");
        }
        cover!($cut != 0 || q.is_some(), "read");
    }};
}
macro_rules! kex_req_encode {
    ($v:literal, $o:literal) => {{
        peers!(c, $v, false, false);
        let kind: u8 = nd::any();
        nd::assume(kind < 2 || kind == 0xFF);
        let s = ManuallyDrop::new(SpdmKeyExchangeRequestPayload {
            measurement_summary_hash_type: SpdmMeasurementSummaryHashType::read_bytes(&[kind]).unwrap(),
            slot_id: nd::any(), req_session_id: nd::any(), session_policy: nd::any(),
            random: SpdmRandomStruct { data: nd::any() }, exchange: exchange(), opaque: opaque::<$o>(),
        });
        encodes!(c, s, 104 + $o, |p: usize| match p {
            0 => kind, 1 => s.slot_id, 2 => s.req_session_id as u8, 3 => (s.req_session_id >> 8) as u8,
            4 => if $v >= 0x12 { s.session_policy } else { 0 }, 5 => 0,
            6..=37 => s.random.data[p - 6], 38..=101 => s.exchange.data[p - 38],
            102 => $o, 103 => 0, _ => s.opaque.data[p - 104],
        });
    }};
}
macro_rules! kex_rsp_encode {
    ($sum:literal, $o:literal, $clear:literal) => {{
        peers!(c, 0x12, $sum, $clear);
        let mutual: u8 = nd::any();
        nd::assume(mutual < 8);
        let s = ManuallyDrop::new(SpdmKeyExchangeResponsePayload {
            heartbeat_period: nd::any(), rsp_session_id: nd::any(),
            mut_auth_req: SpdmKeyExchangeMutAuthAttributes::from_bits_truncate(mutual), req_slot_id: nd::any(),
            random: SpdmRandomStruct { data: nd::any() }, exchange: exchange(), measurement_summary_hash: digest(),
            opaque: opaque::<$o>(), signature: signature(), verify_data: digest(),
        });
        const S: usize = 102 + if $sum { 32 } else { 0 };
        const G: usize = S + 2 + $o;
        encodes!(c, s, G + 64 + if $clear { 0 } else { 32 }, |p: usize| match p {
            0 => s.heartbeat_period, 1 => 0, 2 => s.rsp_session_id as u8, 3 => (s.rsp_session_id >> 8) as u8,
            4 => mutual, 5 => s.req_slot_id,
            6..=37 => s.random.data[p - 6], 38..=101 => s.exchange.data[p - 38],
            _ if p < S => s.measurement_summary_hash.data[p - 102],
            _ if p == S => $o, _ if p == S + 1 => 0, _ if p < G => s.opaque.data[p - S - 2],
            _ if p < G + 64 => s.signature.data[p - G], _ => s.verify_data.data[p - G - 64],
        });
    }};
}
macro_rules! kex_rsp_read {
    ($sum:literal, $o:literal, $clear:literal, $cut:literal) => {{
        peers!(c, 0x12, $sum, $clear);
        const S: usize = 102 + if $sum { 32 } else { 0 };
        const G: usize = S + 2 + $o;
        const N: usize = G + 64 + if $clear { 0 } else { 32 };
        let mut m: [u8; N] = nd::any();
        m[S] = $o;
        m[S + 1] = 0;
        let q = ManuallyDrop::new(SpdmKeyExchangeResponsePayload::spdm_read(c, &mut Reader::init(&m[..N - $cut])));
        assert!(q.is_some() == ($cut == 0 && (m[4] == 0 || m[4] == 1 || m[4] == 2 || m[4] == 4)), "exactly the complete responses");
        if let Some(q) = &*q {
            assert!(q.heartbeat_period == m[0] && q.rsp_session_id == le16(&m[2..4]) && q.mut_auth_req.bits() == m[4] && q.req_slot_id == m[5], "parameters");
            assert!(same(&q.random.data, &m[6..38]), "random");
            assert!(q.exchange.data_size == 64 && same(&q.exchange.data[..64], &m[38..102]), "exchange data");
            assert!(!$sum || q.measurement_summary_hash.data_size == 32 && same(&q.measurement_summary_hash.data[..S - 102], &m[102..S]), "summary");
            assert!(q.opaque.data_size == $o && same(&q.opaque.data[..$o], &m[S + 2..G]), "opaque data");
            assert!(q.signature.data_size == 64 && same(&q.signature.data[..64], &m[G..G + 64]), "signature");
            assert!($clear || q.verify_data.data_size == 32 && same(&q.verify_data.data[..N - G - 64], &m[G + 64..]), "verify data");
        }
        cover!($cut != 0 || q.is_some(), "read");
    }};
}
macro_rules! psk_req_read {
    ($h:literal, $x:literal, $o:literal, $cut:literal) => {{
        peers!(c, 0x12, false, false);
        c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits_truncate(nd::any());
        let flags = c.negotiate_info.rsp_capabilities_sel;
        const N: usize = 10 + $h + $x + $o;
        let mut m: [u8; N] = nd::any();
        (m[4], m[5], m[6], m[7], m[8], m[9]) = ($h, 0, $x, 0, $o, 0);
        let q = ManuallyDrop::new(SpdmPskExchangeRequestPayload::spdm_read(c, &mut Reader::init(&m[..N - $cut])));
        assert!(q.is_some() == (kind_ok(m[0], flags) && $cut == 0), "exactly the complete requests");
        if let Some(q) = &*q {
            assert!(q.measurement_summary_hash_type.get_u8() == m[0] && q.req_session_id == le16(&m[2..4]), "parameters");
            assert!(q.psk_hint.data_size == $h && same(&q.psk_hint.data[..$h], &m[10..10 + $h]), "hint");
            assert!(q.psk_context.data_size == $x && same(&q.psk_context.data[..$x], &m[10 + $h..10 + $h + $x]), "context");
            assert!(q.opaque.data_size == $o && same(&q.opaque.data[..$o], &m[10 + $h + $x..]), "opaque data");
        }
        cover!($cut != 0 || q.is_some(), "read");
    }};
}
fn hint<const N: usize>() -> SpdmPskHintStruct {
    let k: [u8; N] = nd::any();
    let mut h = SpdmPskHintStruct::default();
    h.data_size = N as u16;
    h.data[..N].copy_from_slice(&k);
    h
}
fn context<const N: usize>() -> SpdmPskContextStruct {
    let k: [u8; N] = nd::any();
    let mut h = SpdmPskContextStruct::default();
    h.data_size = N as u16;
    h.data[..N].copy_from_slice(&k);
    h
}
macro_rules! psk_req_encode {
    ($h:literal, $x:literal, $o:literal) => {{
        peers!(c, 0x12, false, false);
        let kind: u8 = nd::any();
        nd::assume(kind < 2 || kind == 0xFF);
        let s = ManuallyDrop::new(SpdmPskExchangeRequestPayload {
            measurement_summary_hash_type: SpdmMeasurementSummaryHashType::read_bytes(&[kind]).unwrap(),
            req_session_id: nd::any(), psk_hint: hint::<$h>(), psk_context: context::<$x>(), opaque: opaque::<$o>(),
        });
        encodes!(c, s, 10 + $h + $x + $o, |p: usize| match p {
            0 => kind, 1 => 0, 2 => s.req_session_id as u8, 3 => (s.req_session_id >> 8) as u8,
            4 => $h, 6 => $x, 8 => $o, 5 | 7 | 9 => 0,
            _ if p < 10 + $h => s.psk_hint.data[p - 10],
            _ if p < 10 + $h + $x => s.psk_context.data[p - 10 - $h],
            _ => s.opaque.data[p - 10 - $h - $x],
        });
    }};
}
macro_rules! psk_rsp_encode {
    ($sum:literal, $x:literal, $o:literal, $without:literal) => {{
        peers!(c, 0x12, $sum, false);
        if $without {
            c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT;
        }
        let s = ManuallyDrop::new(SpdmPskExchangeResponsePayload {
            heartbeat_period: nd::any(), rsp_session_id: nd::any(), measurement_summary_hash: digest(),
            psk_context: context::<$x>(), opaque: opaque::<$o>(), verify_data: digest(),
        });
        const X: usize = if $without { 0 } else { $x };
        const S: usize = 10 + if $sum { 32 } else { 0 };
        encodes!(c, s, S + X + $o + 32, |p: usize| match p {
            0 => s.heartbeat_period, 1 => 0, 2 => s.rsp_session_id as u8, 3 => (s.rsp_session_id >> 8) as u8,
            4 | 5 => 0, 6 => X as u8, 8 => $o, 7 | 9 => 0,
            _ if p < S => s.measurement_summary_hash.data[p - 10],
            _ if p < S + X => s.psk_context.data[p - S],
            _ if p < S + X + $o => s.opaque.data[p - S - X],
            _ => s.verify_data.data[p - S - X - $o],
        });
    }};
}
macro_rules! psk_rsp_read {
    ($sum:literal, $x:literal, $o:literal, $cut:literal) => {{
        peers!(c, 0x12, $sum, false);
        c.negotiate_info.rsp_capabilities_sel.set(SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT, $x == 0);
        const S: usize = 10 + if $sum { 32 } else { 0 };
        const N: usize = S + $x + $o + 32;
        let mut m: [u8; N] = nd::any();
        (m[6], m[7], m[8], m[9]) = ($x, 0, $o, 0);
        let q = ManuallyDrop::new(SpdmPskExchangeResponsePayload::spdm_read(c, &mut Reader::init(&m[..N - $cut])));
        assert!(q.is_some() == ($cut == 0), "exactly the complete responses");
        if let Some(q) = &*q {
            assert!(q.heartbeat_period == m[0] && q.rsp_session_id == le16(&m[2..4]), "parameters");
            assert!(!$sum || q.measurement_summary_hash.data_size == 32 && same(&q.measurement_summary_hash.data[..S - 10], &m[10..S]), "summary");
            assert!(q.psk_context.data_size == $x && same(&q.psk_context.data[..$x], &m[S..S + $x]), "context");
            assert!(q.opaque.data_size == $o && same(&q.opaque.data[..$o], &m[S + $x..S + $x + $o]), "opaque data");
            assert!(q.verify_data.data_size == 32 && same(&q.verify_data.data[..32], &m[N - 32..]), "verify data");
        }
        cover!($cut != 0 || q.is_some(), "read");
    }};
}
macro_rules! finish_req {
    ($signed:literal, 1) => {{
        peers!(c, 0x12, false, false);
        const N: usize = 33 + if $signed { 64 } else { 0 };
        let mut m: [u8; N] = nd::any();
        m[0] = $signed as u8;
        let q = ManuallyDrop::new(SpdmFinishRequestPayload::spdm_read(c, &mut Reader::init(&m)));
        assert!(q.is_none(), "an incomplete request is refused");
        cover!(true, "refused");
    }};
    ($signed:literal, $cut:literal) => {{
        peers!(c, 0x12, false, false);
        const G: usize = 2 + if $signed { 64 } else { 0 };
        const N: usize = G + 32;
        let mut m: [u8; N] = nd::any();
        m[0] = $signed as u8;
        let q = ManuallyDrop::new(SpdmFinishRequestPayload::spdm_read(c, &mut Reader::init(&m[..N - $cut])));
        assert!(q.is_some() == ($cut == 0), "exactly the complete requests");
        if let Some(q) = &*q {
            assert!(q.finish_request_attributes.bits() == m[0] && q.req_slot_id == m[1], "parameters");
            assert!(!$signed || q.signature.data_size == 64 && same(&q.signature.data[..G - 2], &m[2..G]), "signature");
            assert!(q.verify_data.data_size == 32 && same(&q.verify_data.data[..32], &m[G..]), "verify data");
            encodes!(c, q, N, |p: usize| m[p]);
        }
        cover!($cut != 0 || q.is_some(), "read");
    }};
}
macro_rules! finish_rsp {
    ($clear:literal, 1) => {{
        peers!(c, 0x12, false, $clear);
        const N: usize = 1 + if $clear { 32 } else { 0 };
        let m: [u8; N] = nd::any();
        let q = ManuallyDrop::new(SpdmFinishResponsePayload::spdm_read(c, &mut Reader::init(&m)));
        assert!(q.is_none(), "an incomplete response is refused");
        cover!(true, "refused");
    }};
    ($clear:literal, $cut:literal) => {{
        peers!(c, 0x12, false, $clear);
        const N: usize = 2 + if $clear { 32 } else { 0 };
        let m: [u8; N] = nd::any();
        let q = ManuallyDrop::new(SpdmFinishResponsePayload::spdm_read(c, &mut Reader::init(&m[..N - $cut])));
        assert!(q.is_some() == ($cut == 0), "exactly the complete responses");
        if let Some(q) = &*q {
            assert!(!$clear || q.verify_data.data_size == 32 && same(&q.verify_data.data[..N - 2], &m[2..]), "verify data");
            encodes!(c, q, N, |p: usize| if p < 2 { 0 } else { m[p] });
        }
        cover!($cut != 0 || q.is_some(), "read");
    }};
}
/// Opaque data under version `$v` with `$e` elements, the first listing `$n` versions.
macro_rules! list {
    ($v:literal, $fmt:expr, $e:literal, $n:literal) => {{
        ctx!(c);
        c.negotiate_info.spdm_version_sel = ver($v);
        c.negotiate_info.opaque_data_support = $fmt;
        let fmt1 = $fmt == SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
        const H: usize = if $v < 0x12 { 8 } else { 4 };
        let m: [u8; 64] = nd::any();
        let mut o = SpdmOpaqueStruct::default();
        o.data_size = 64;
        o.data[..64].copy_from_slice(&m);
        if $v < 0x12 {
            o.data[..6].copy_from_slice(&[0x46, 0x54, 0x4d, 0x44, 1, $e]);
        } else {
            o.data[0] = $e;
        }
        o.data[H + 6] = $n;
        let first = (H + 7 + 2 * $n + 3) & !3;
        if $e > 1 {
            o.data[first + 6] = 1;
        }
        let l = o.rsp_get_dmtf_supported_secure_spdm_version_list(c);
        let header = $v < 0x12 || fmt1;
        assert!(l.is_some() == (header && $e <= 3), "exactly a list of versions");
        if let Some(l) = l {
            assert!(l.version_count == if $e == 0 { 0 } else { $n }, "as many as listed");
            if $n >= 1 && $e >= 1 {
                let v = l.versions_list[0];
                assert!(v.get_secure_spdm_version() == m[H + 8] && v.update_version_number << 4 | v.alpha == m[H + 7], "first version");
            }
            if $n >= 2 && $e >= 1 {
                let v = l.versions_list[1];
                assert!(v.get_secure_spdm_version() == m[H + 10] && v.update_version_number << 4 | v.alpha == m[H + 9], "second version");
            }
        }
        cover!(l.is_some() || $e > 3 || $v >= 0x12 && !fmt1, "read");
    }};
}
macro_rules! own {
    ($v:literal, $req:ident, $rsp:ident) => {{
        ctx!(c);
        c.negotiate_info.spdm_version_sel = ver($v);
        c.negotiate_info.opaque_data_support = SpdmOpaqueSupport::OPAQUE_DATA_FMT1;
        let mut o = SpdmOpaqueStruct::default();
        o.data_size = $req.len() as u16;
        o.data[..$req.len()].copy_from_slice(&$req);
        let l = o.rsp_get_dmtf_supported_secure_spdm_version_list(c).expect("own list understood");
        assert!(l.version_count == 2 && l.versions_list[0].get_secure_spdm_version() == 0x10 && l.versions_list[1].get_secure_spdm_version() == 0x11, "1.0 and 1.1 supported");
        let mut o = SpdmOpaqueStruct::default();
        o.data_size = $rsp.len() as u16;
        o.data[..$rsp.len()].copy_from_slice(&$rsp);
        let s = o.req_get_dmtf_secure_spdm_version_selection(c).expect("own selection understood");
        assert!(s.get_secure_spdm_version() == 0x11, "1.1 selected");
    }};
}
harnesses! {
    /// @fns: SpdmKeyExchangeRequestPayload::spdm_read, SpdmOpaqueStruct::spdm_read, SpdmDheExchangeStruct::spdm_read
    /// @bound: opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 112
    #[unwind(112)]
    fn kex_req_read_0_cut_0() { kex_req_read!(0, 0) }
    /// @fns: SpdmKeyExchangeRequestPayload::spdm_read, SpdmOpaqueStruct::spdm_read, SpdmDheExchangeStruct::spdm_read
    /// @bound: opaque data of 5 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 112
    #[unwind(112)]
    fn kex_req_read_5_cut_0() { kex_req_read!(5, 0) }
    /// @fns: SpdmKeyExchangeRequestPayload::spdm_read, SpdmOpaqueStruct::spdm_read, SpdmDheExchangeStruct::spdm_read
    /// @bound: opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 112
    #[unwind(112)]
    fn kex_req_read_0_cut_1() { kex_req_read!(0, 1) }
    /// @fns: SpdmKeyExchangeRequestPayload::spdm_read, SpdmOpaqueStruct::spdm_read, SpdmDheExchangeStruct::spdm_read
    /// @bound: opaque data of 5 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 112
    #[unwind(112)]
    fn kex_req_read_5_cut_1() { kex_req_read!(5, 1) }
    /// @fns: SpdmKeyExchangeRequestPayload::spdm_read, SpdmOpaqueStruct::spdm_read, SpdmDheExchangeStruct::spdm_read
    /// @bound: opaque data of 5 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 112
    #[unwind(112)]
    fn kex_req_read_5_cut_6() { kex_req_read!(5, 6) }
    /// @fns: SpdmKeyExchangeRequestPayload::spdm_encode, SpdmOpaqueStruct::spdm_encode, SpdmDheExchangeStruct::spdm_encode
    /// @bound: opaque data of 5 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 112
    #[unwind(112)]
    fn kex_req_encode_12_5() { kex_req_encode!(0x12, 5) }
    /// @fns: SpdmKeyExchangeRequestPayload::spdm_encode, SpdmOpaqueStruct::spdm_encode, SpdmDheExchangeStruct::spdm_encode
    /// @bound: opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 112
    #[unwind(112)]
    fn kex_req_encode_11_0() { kex_req_encode!(0x11, 0) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_encode
    /// @bound: opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_encode_summary_12_mac() { kex_rsp_encode!(true, 12, false) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_encode
    /// @bound: opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_encode_none_0_clear() { kex_rsp_encode!(false, 0, true) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_encode
    /// @bound: opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_encode_none_12_mac() { kex_rsp_encode!(false, 12, false) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_encode
    /// @bound: opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_encode_summary_0_clear() { kex_rsp_encode!(true, 0, true) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_read
    /// @bound: opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_read_summary_12_mac_cut_0() { kex_rsp_read!(true, 12, false, 0) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_read
    /// @bound: opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_read_none_0_clear_cut_0() { kex_rsp_read!(false, 0, true, 0) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_read
    /// @bound: opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_read_summary_12_mac_cut_1() { kex_rsp_read!(true, 12, false, 1) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_read
    /// @bound: opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_read_none_0_clear_cut_1() { kex_rsp_read!(false, 0, true, 1) }
    /// @fns: SpdmKeyExchangeResponsePayload::spdm_read
    /// @bound: opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 250
    #[unwind(250)]
    fn kex_rsp_read_none_12_mac_cut_0() { kex_rsp_read!(false, 12, false, 0) }
    /// @fns: SpdmPskExchangeRequestPayload::spdm_read
    /// @bound: hint of 5, context of 32, opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn psk_req_read_5_32_12_cut_0() { psk_req_read!(5, 32, 12, 0) }
    /// @fns: SpdmPskExchangeRequestPayload::spdm_read
    /// @bound: hint of 0, context of 0, opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn psk_req_read_0_0_0_cut_0() { psk_req_read!(0, 0, 0, 0) }
    /// @fns: SpdmPskExchangeRequestPayload::spdm_read
    /// @bound: hint of 5, context of 32, opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn psk_req_read_5_32_12_cut_1() { psk_req_read!(5, 32, 12, 1) }
    /// @fns: SpdmPskExchangeRequestPayload::spdm_read
    /// @bound: hint of 8, context of 0, opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn psk_req_read_8_0_0_cut_0() { psk_req_read!(8, 0, 0, 0) }
    /// @fns: SpdmPskExchangeRequestPayload::spdm_read
    /// @bound: hint of 0, context of 0, opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn psk_req_read_0_0_0_cut_1() { psk_req_read!(0, 0, 0, 1) }
    /// @fns: SpdmPskExchangeRequestPayload::spdm_encode
    /// @bound: hint of 5, context of 32, opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn psk_req_encode_5_32_12() { psk_req_encode!(5, 32, 12) }
    /// @fns: SpdmPskExchangeRequestPayload::spdm_encode
    /// @bound: hint of 0, context of 0, opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn psk_req_encode_0_0_0() { psk_req_encode!(0, 0, 0) }
    /// @fns: SpdmPskExchangeResponsePayload::spdm_encode
    /// @bound: context of 32, opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 130
    #[unwind(130)]
    fn psk_rsp_encode_summary_32_12_with() { psk_rsp_encode!(true, 32, 12, false) }
    /// @fns: SpdmPskExchangeResponsePayload::spdm_encode
    /// @bound: context of 32, opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 130
    #[unwind(130)]
    fn psk_rsp_encode_none_32_12_without() { psk_rsp_encode!(false, 32, 12, true) }
    /// @fns: SpdmPskExchangeResponsePayload::spdm_encode
    /// @bound: context of 0, opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 130
    #[unwind(130)]
    fn psk_rsp_encode_none_0_0_with() { psk_rsp_encode!(false, 0, 0, false) }
    /// @fns: SpdmPskExchangeResponsePayload::spdm_read
    /// @bound: context of 32, opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 130
    #[unwind(130)]
    fn psk_rsp_read_summary_32_12_cut_0() { psk_rsp_read!(true, 32, 12, 0) }
    /// @fns: SpdmPskExchangeResponsePayload::spdm_read
    /// @bound: context of 0, opaque data of 0 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 130
    #[unwind(130)]
    fn psk_rsp_read_none_0_0_cut_0() { psk_rsp_read!(false, 0, 0, 0) }
    /// @fns: SpdmPskExchangeResponsePayload::spdm_read
    /// @bound: context of 32, opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 130
    #[unwind(130)]
    fn psk_rsp_read_summary_32_12_cut_1() { psk_rsp_read!(true, 32, 12, 1) }
    /// @fns: SpdmFinishRequestPayload::spdm_read, SpdmFinishRequestPayload::spdm_encode
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[unwind(102)]
    fn finish_req_plain_cut_0() { finish_req!(false, 0) }
    /// @fns: SpdmFinishRequestPayload::spdm_read, SpdmFinishRequestPayload::spdm_encode
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[unwind(102)]
    fn finish_req_signed_cut_0() { finish_req!(true, 0) }
    /// @fns: SpdmFinishRequestPayload::spdm_read, SpdmFinishRequestPayload::spdm_encode
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[unwind(102)]
    fn finish_req_plain_cut_1() { finish_req!(false, 1) }
    /// @fns: SpdmFinishRequestPayload::spdm_read, SpdmFinishRequestPayload::spdm_encode
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 102
    #[unwind(102)]
    fn finish_req_signed_cut_1() { finish_req!(true, 1) }
    /// @fns: SpdmFinishResponsePayload::spdm_read, SpdmFinishResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(66)]
    fn finish_rsp_secured_cut_0() { finish_rsp!(false, 0) }
    /// @fns: SpdmFinishResponsePayload::spdm_read, SpdmFinishResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(66)]
    fn finish_rsp_clear_cut_0() { finish_rsp!(true, 0) }
    /// @fns: SpdmFinishResponsePayload::spdm_read, SpdmFinishResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(66)]
    fn finish_rsp_secured_cut_1() { finish_rsp!(false, 1) }
    /// @fns: SpdmFinishResponsePayload::spdm_read, SpdmFinishResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(66)]
    fn finish_rsp_clear_cut_1() { finish_rsp!(true, 1) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 1 elements, 2 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_12_fmt1_1_2() { list!(0x12, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, 1, 2) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 1 elements, 1 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_12_fmt1_1_1() { list!(0x12, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, 1, 1) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 0 elements, 0 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_12_fmt1_0_0() { list!(0x12, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, 0, 0) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 2 elements, 2 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_12_fmt1_2_2() { list!(0x12, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, 2, 2) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 4 elements, 1 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_12_fmt1_4_1() { list!(0x12, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, 4, 1) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 1 elements, 2 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_11_fmt1_1_2() { list!(0x11, SpdmOpaqueSupport::OPAQUE_DATA_FMT1, 1, 2) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 1 elements, 1 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_11_none_1_1() { list!(0x11, SpdmOpaqueSupport::empty(), 1, 1) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read
    /// @bound: 1 elements, 2 versions in the first
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn list_12_none_1_2() { list!(0x12, SpdmOpaqueSupport::empty(), 1, 2) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read, SpdmOpaqueStruct::req_get_dmtf_secure_spdm_version_selection
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn own_lists_11() { own!(0x11, REQ_DMTF_OPAQUE_DATA_SUPPORT_VERSION_LIST_DSP0277, RSP_DMTF_OPAQUE_DATA_VERSION_SELECTION_DSP0277) }
    /// @fns: SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, SecuredMessageDMTFSupportedVersion::spdm_read, SecuredMessageVersionList::spdm_read, SpdmOpaqueStruct::req_get_dmtf_secure_spdm_version_selection
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 1030
    #[unwind(70)]
    fn own_lists_12() { own!(0x12, REQ_DMTF_OPAQUE_DATA_SUPPORT_VERSION_LIST_DSP0274_FMT1, RSP_DMTF_OPAQUE_DATA_VERSION_SELECTION_DSP0274_FMT1) }
    /// The short session messages: two bytes, what is in them, nothing else.
    /// @fns: SpdmHeartbeatResponsePayload::spdm_read, SpdmEndSessionRequestPayload::spdm_read, SpdmEndSessionResponsePayload::spdm_read, SpdmKeyUpdateRequestPayload::spdm_read, SpdmKeyUpdateResponsePayload::spdm_read, SpdmPskFinishResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(8)]
    fn short_messages() {
        ctx!(c);
        let m: [u8; 2] = nd::any();
        let n: usize = nd::any();
        nd::assume(n <= 2);
        macro_rules! two { ($t:ident) => { assert!($t::spdm_read(c, &mut Reader::init(&m[..n])).is_some() == (n == 2), "complete") } }
        two!(SpdmHeartbeatRequestPayload);
        two!(SpdmHeartbeatResponsePayload);
        two!(SpdmEndSessionResponsePayload);
        two!(SpdmPskFinishResponsePayload);
        let op = n == 2 && m[0] >= 1 && m[0] <= 3;
        let q = SpdmKeyUpdateRequestPayload::spdm_read(c, &mut Reader::init(&m[..n]));
        assert!(q.is_some() == op, "a defined operation");
        assert!(q.map_or(true, |q| q.key_update_operation.get_u8() == m[0] && q.tag == m[1]), "operation and tag");
        let q = SpdmKeyUpdateResponsePayload::spdm_read(c, &mut Reader::init(&m[..n]));
        assert!(q.is_some() == op, "a defined operation");
        assert!(q.map_or(true, |q| q.key_update_operation.get_u8() == m[0] && q.tag == m[1]), "operation and tag");
        macro_rules! writes { ($s:expr, $b:expr) => {{
            let mut b = [0xA5u8; 3];
            let mut w = Writer::init(&mut b);
            assert!($s.spdm_encode(c, &mut w) == Ok(2) && w.used() == 2 && b == $b, "two bytes");
        }} }
        writes!(SpdmHeartbeatRequestPayload {}, [0, 0, 0xA5]);
        writes!(SpdmHeartbeatResponsePayload {}, [0, 0, 0xA5]);
        writes!(SpdmEndSessionResponsePayload {}, [0, 0, 0xA5]);
        writes!(SpdmPskFinishResponsePayload {}, [0, 0, 0xA5]);
        let tag: u8 = nd::any();
        let o: u8 = nd::any();
        nd::assume(o >= 1 && o <= 3);
        let k = SpdmKeyUpdateOperation::read_bytes(&[o]).unwrap();
        writes!(SpdmKeyUpdateRequestPayload { key_update_operation: k, tag }, [o, tag, 0xA5]);
        writes!(SpdmKeyUpdateResponsePayload { key_update_operation: k, tag }, [o, tag, 0xA5]);
    }
    /// The head of a list of opaque elements: that of the version negotiated.
    /// @fns: SecuredMessageGeneralOpaqueDataHeader::spdm_read
    /// @cfg: small
    #[unwind(10)]
    fn list_head() {
        ctx!(c);
        let v: u8 = nd::any();
        nd::assume(v >= 0x10 && v <= 0x12);
        let fmt1: bool = nd::any();
        c.negotiate_info.spdm_version_sel = ver(v);
        c.negotiate_info.opaque_data_support = if fmt1 { SpdmOpaqueSupport::OPAQUE_DATA_FMT1 } else { SpdmOpaqueSupport::empty() };
        let m: [u8; 8] = nd::any();
        let n: usize = nd::any();
        nd::assume(n <= 8);
        let l = SecuredMessageGeneralOpaqueDataHeader::spdm_read(c, &mut Reader::init(&m[..n]));
        let ok = if v < 0x12 { n == 8 && m[..5] == [0x46, 0x54, 0x4d, 0x44, 1] } else { fmt1 && n >= 4 };
        assert!(l.is_some() == ok, "exactly the head of this version");
        assert!(l.map_or(true, |l| l.total_elements == if v < 0x12 { m[5] } else { m[0] }), "number of elements");
        cover!(ok && v == 0x11, "1.1");
    }
    /// @fns: SpdmPskFinishRequestPayload::spdm_read, SpdmPskFinishRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(66)]
    fn psk_finish_req() {
        peers!(c, 0x12, false, false);
        let m: [u8; 34] = nd::any();
        assert!(SpdmPskFinishRequestPayload::spdm_read(c, &mut Reader::init(&m[..33])).is_none(), "incomplete");
        let q = ManuallyDrop::new(SpdmPskFinishRequestPayload::spdm_read(c, &mut Reader::init(&m)).unwrap());
        assert!(q.verify_data.data_size == 32 && same(&q.verify_data.data[..32], &m[2..]), "verify data");
        encodes!(c, q, 34, |p: usize| if p < 2 { 0 } else { m[p] });
    }
}
