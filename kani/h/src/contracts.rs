//! Contracts of functions of the code under test, as executable functions. A
//! harness that is checked against one of these (kani::stub) names it in its
//! evidence; another harness discharges it against the function's body.
use crate::cx::*;
use codec::{Codec, Reader};
use spdmlib::protocol::*;

/// Defined algorithms of structure type 2 (DHE), 3 (AEAD), 4 (requester signature), 5 (key schedule).
pub fn defined(t: u8) -> u16 {
    match t { 2 => 0x18, 3 => 7, 4 => 0xff, _ => 1 }
}
/// `SpdmAlgStruct::read`: four bytes; type known, count 0x20, undefined bits ignored. Discharged in P10.
pub fn alg_struct_read(r: &mut Reader) -> Option<SpdmAlgStruct> {
    let s = r.take(4)?;
    if s[1] != 0x20 {
        return None;
    }
    let raw = le16(&s[2..4]) & defined(s[0]);
    let (t, a) = match s[0] {
        2 => (SpdmAlgType::SpdmAlgTypeDHE, SpdmAlg::SpdmAlgoDhe(SpdmDheAlgo::from_bits_truncate(raw))),
        3 => (SpdmAlgType::SpdmAlgTypeAEAD, SpdmAlg::SpdmAlgoAead(SpdmAeadAlgo::from_bits_truncate(raw))),
        4 => (SpdmAlgType::SpdmAlgTypeReqAsym, SpdmAlg::SpdmAlgoReqAsym(SpdmReqAsymAlgo::from_bits_truncate(raw))),
        5 => (SpdmAlgType::SpdmAlgTypeKeySchedule, SpdmAlg::SpdmAlgoKeySchedule(SpdmKeyScheduleAlgo::from_bits_truncate(raw))),
        _ => return None,
    };
    Some(SpdmAlgStruct { alg_type: t, alg_supported: a })
}

/// `gen_array_clone` (contract discharged in P15): `count` elements wanted, each equal to `v`.
pub fn array_clone<T: Clone, const N: usize>(v: T, count: usize) -> [T; N] {
    assert!(count == N || N == 1 && count == 0, "as many elements as the array has");
    core::array::from_fn(|_| v.clone())
}

/// Summary hash, opaque data and verify data of the KEY_EXCHANGE_RSP of this harness: sizes.
pub static mut KEX: (usize, usize, usize) = (0, 0, 0);
/// `SpdmKeyExchangeResponsePayload::spdm_encode`: the fields in order. Discharged in P23.
pub fn key_exchange_rsp_encode(s: &spdmlib::message::SpdmKeyExchangeResponsePayload, _c: &mut spdmlib::common::SpdmContext, w: &mut codec::Writer) -> Result<usize, spdmlib::error::SpdmStatus> {
    let (sum, opq, mac) = unsafe { KEX };
    assert!(s.exchange.data_size == 64 && s.signature.data_size == 64, "sizes of the algorithms");
    assert!(sum == 0 || s.measurement_summary_hash.data_size as usize == sum, "size of the summary");
    assert!(s.opaque.data_size as usize == opq, "size of the opaque data");
    assert!(mac == 0 || s.verify_data.data_size as usize == mac, "size of the verify data");
    let id = s.rsp_session_id.to_le_bytes();
    let n = w.used();
    w.extend_from_slice(&[s.heartbeat_period, 0, id[0], id[1], s.mut_auth_req.bits(), s.req_slot_id]).unwrap();
    w.extend_from_slice(&s.random.data).unwrap();
    w.extend_from_slice(&s.exchange.data[..64]).unwrap();
    if sum != 0 {
        w.extend_from_slice(&s.measurement_summary_hash.data[..32]).unwrap();
    }
    w.extend_from_slice(&[opq as u8, 0]).unwrap();
    if opq != 0 {
        w.extend_from_slice(&s.opaque.data[..12]).unwrap();
    }
    w.extend_from_slice(&s.signature.data[..64]).unwrap();
    if mac != 0 {
        w.extend_from_slice(&s.verify_data.data[..32]).unwrap();
    }
    Ok(w.used() - n)
}

/// The payload of the KEY_EXCHANGE of this harness: kind of summary, slot, session, policy; key.
pub static mut KEX_REQ: (u8, u8, u16, u8) = (0, 0, 0, 0);
pub static mut KEX_KEY: [u8; 64] = [0; 64];
/// `SpdmKeyExchangeRequestPayload::spdm_read` (discharged in P23), of a request that is well formed.
pub fn key_exchange_req_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmKeyExchangeRequestPayload> {
    let _ = r.rest();
    let (kind, slot_id, req_session_id, session_policy) = unsafe { KEX_REQ };
    let mut data = [0; SPDM_MAX_DHE_KEY_SIZE];
    data[..64].copy_from_slice(unsafe { &KEX_KEY });
    Some(spdmlib::message::SpdmKeyExchangeRequestPayload {
        measurement_summary_hash_type: SpdmMeasurementSummaryHashType::read_bytes(&[kind]).unwrap(),
        slot_id,
        req_session_id,
        session_policy,
        random: SpdmRandomStruct { data: [0; 32] },
        exchange: SpdmDheExchangeStruct { data_size: 64, data },
        opaque: spdmlib::common::opaque::SpdmOpaqueStruct::default(),
    })
}

/// Summary hash, context and opaque data of the PSK_EXCHANGE_RSP of this harness: sizes.
pub static mut PSKX: (usize, usize, usize) = (0, 0, 0);
/// `SpdmPskExchangeResponsePayload::spdm_encode`: the fields in order. Discharged in P23.
pub fn psk_exchange_rsp_encode(s: &spdmlib::message::SpdmPskExchangeResponsePayload, _c: &mut spdmlib::common::SpdmContext, w: &mut codec::Writer) -> Result<usize, spdmlib::error::SpdmStatus> {
    let (sum, ctx, opq) = unsafe { PSKX };
    assert!(sum == 0 || s.measurement_summary_hash.data_size as usize == sum, "size of the summary");
    assert!(s.psk_context.data_size as usize == ctx, "size of the context");
    assert!(s.opaque.data_size as usize == opq, "size of the opaque data");
    assert!(s.verify_data.data_size == 32, "size of the verify data");
    let id = s.rsp_session_id.to_le_bytes();
    let n = w.used();
    w.extend_from_slice(&[s.heartbeat_period, 0, id[0], id[1], 0, 0, ctx as u8, 0, opq as u8, 0]).unwrap();
    if sum != 0 {
        w.extend_from_slice(&s.measurement_summary_hash.data[..32]).unwrap();
    }
    if ctx != 0 {
        w.extend_from_slice(&s.psk_context.data[..32]).unwrap();
    }
    if opq != 0 {
        w.extend_from_slice(&s.opaque.data[..12]).unwrap();
    }
    w.extend_from_slice(&s.verify_data.data[..32]).unwrap();
    Ok(w.used() - n)
}
/// The payload of the PSK_EXCHANGE of this harness: kind of summary, session; hint of five bytes.
pub static mut PSK_REQ: (u8, u16) = (0, 0);
pub static mut PSK_HINT: [u8; 5] = [0; 5];
/// `SpdmPskExchangeRequestPayload::spdm_read` (discharged in P23), of a request that is well formed.
pub fn psk_exchange_req_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmPskExchangeRequestPayload> {
    let _ = r.rest();
    let (kind, req_session_id) = unsafe { PSK_REQ };
    let mut psk_hint = SpdmPskHintStruct::default();
    psk_hint.data_size = 5;
    psk_hint.data[..5].copy_from_slice(unsafe { &PSK_HINT });
    Some(spdmlib::message::SpdmPskExchangeRequestPayload {
        measurement_summary_hash_type: SpdmMeasurementSummaryHashType::read_bytes(&[kind]).unwrap(),
        req_session_id,
        psk_hint,
        psk_context: SpdmPskContextStruct::default(),
        opaque: spdmlib::common::opaque::SpdmOpaqueStruct::default(),
    })
}

/// A CAPABILITIES that is well formed: timeout exponent, flags, sizes.
pub static mut CAPS: (u8, u32, u32, u32) = (0, 0, 0, 0);
/// `SpdmCapabilitiesResponsePayload::spdm_read` (discharged in P09), of a response that is well formed.
pub fn capabilities_rsp_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmCapabilitiesResponsePayload> {
    let _ = r.rest();
    let (ct_exponent, flags, data_transfer_size, max_spdm_msg_size) = unsafe { CAPS };
    Some(spdmlib::message::SpdmCapabilitiesResponsePayload { ct_exponent, flags: SpdmResponseCapabilityFlags::from_bits_truncate(flags), data_transfer_size, max_spdm_msg_size })
}
/// An ALGORITHMS that is well formed: measurement specification, opaque data format, measurement hash, signature, hash;
/// number of structures; their values, of types 2 to 5 in this order.
pub static mut ALGS: (u8, u8, u32, u32, u32, u8, [u16; 4]) = (0, 0, 0, 0, 0, 0, [0; 4]);
/// `SpdmAlgorithmsResponsePayload::spdm_read` (discharged in P10), of a response that is well formed.
pub fn algorithms_rsp_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmAlgorithmsResponsePayload> {
    let _ = r.rest();
    let a = unsafe { ALGS };
    let s = |t: u8| {
        let v = a.6[t as usize - 2];
        alg_struct_read(&mut Reader::init(&[t, 0x20, v as u8, (v >> 8) as u8])).unwrap()
    };
    Some(spdmlib::message::SpdmAlgorithmsResponsePayload {
        measurement_specification_sel: SpdmMeasurementSpecification::from_bits_truncate(a.0),
        other_params_selection: spdmlib::common::opaque::SpdmOpaqueSupport::from_bits_truncate(a.1),
        measurement_hash_algo: SpdmMeasurementHashAlgo::from_bits_truncate(a.2),
        base_asym_sel: SpdmBaseAsymAlgo::from_bits_truncate(a.3),
        base_hash_sel: SpdmBaseHashAlgo::from_bits_truncate(a.4),
        alg_struct_count: a.5,
        alg_struct: [s(2), s(3), s(4), s(5)],
    })
}

/// A VERSION that is well formed: number of entries, their versions.
pub static mut VERS: (u8, [u8; 3]) = (0, [0; 3]);
/// `SpdmVersionResponsePayload::spdm_read` (discharged in P09), of a response that is well formed; entries unused are 1.0.
pub fn version_rsp_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmVersionResponsePayload> {
    let _ = r.rest();
    let (n, v) = unsafe { VERS };
    let e = |i: usize| spdmlib::message::SpdmVersionStruct { update: 0, version: if i < n as usize { crate::spy::ver_any(v[i]) } else { SpdmVersion::SpdmVersion10 } };
    Some(spdmlib::message::SpdmVersionResponsePayload { version_number_entry_count: n, versions: [e(0), e(1), e(2)] })
}

/// How many bytes of this harness's answer its payload takes; what follows it is no part of the message.
pub static mut USED: usize = 0;
/// `SpdmDigestsResponsePayload::spdm_read` (discharged in P25), of a response that is well formed: nothing but its length is used.
pub fn digests_rsp_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmDigestsResponsePayload> {
    let _ = r.take(unsafe { USED }).unwrap();
    Some(spdmlib::message::SpdmDigestsResponsePayload { slot_mask: 1, digests: core::array::from_fn(|_| SpdmDigestStruct::default()) })
}
/// A CERTIFICATE that is well formed: slot, portion, remainder; content.
pub static mut CERT: (u8, u16, u16) = (0, 0, 0);
pub static mut CERT_DATA: [u8; 16] = [0; 16];
/// `SpdmCertificateResponsePayload::spdm_read` (discharged in P25), of a response that is well formed.
pub fn certificate_rsp_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmCertificateResponsePayload> {
    let _ = r.take(unsafe { USED }).unwrap();
    let (slot_id, portion_length, remainder_length) = unsafe { CERT };
    let mut cert_chain = [0u8; 512];
    cert_chain[..16].copy_from_slice(unsafe { &CERT_DATA });
    Some(spdmlib::message::SpdmCertificateResponsePayload { slot_id, portion_length, remainder_length, cert_chain })
}
/// `SpdmChallengeAuthResponsePayload::spdm_read` (discharged in P25), of a response that is well formed: the signature is its last 64 bytes.
pub fn challenge_rsp_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmChallengeAuthResponsePayload> {
    let b = r.take(unsafe { USED }).unwrap();
    let mut p = spdmlib::message::SpdmChallengeAuthResponsePayload::default();
    p.signature.data_size = 64;
    p.signature.data[..64].copy_from_slice(&b[b.len() - 64..]);
    Some(p)
}
/// A MEASUREMENTS that is well formed: number, content change, slot, number of blocks; its record is `RECORD`.
pub static mut MEASURED: (u8, u8, u8, u8) = (0, 0, 0, 0);
/// `SpdmMeasurementsResponsePayload::spdm_read` (discharged in P26), of a response that is well formed: the signature, if asked for, is its last 64 bytes.
pub fn measurements_rsp_read(c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmMeasurementsResponsePayload> {
    let b = r.take(unsafe { USED }).unwrap();
    let mut p = spdmlib::message::SpdmMeasurementsResponsePayload::default();
    let (number, changed, slot, blocks) = unsafe { MEASURED };
    p.number_of_measurement = number;
    p.content_changed = spdmlib::common::SpdmMeasurementContentChanged::from_bits(changed).unwrap();
    p.slot_id = slot;
    p.measurement_record.number_of_blocks = blocks;
    p.measurement_record.measurement_record_length = codec::u24::new(16);
    p.measurement_record.measurement_record_data[..16].copy_from_slice(unsafe { &crate::rec::RECORD });
    if c.runtime_info.need_measurement_signature {
        p.signature.data_size = 64;
        p.signature.data[..64].copy_from_slice(&b[b.len() - 64..]);
    }
    Some(p)
}

/// `SpdmKeyExchangeRequestPayload::spdm_encode`: the fields in order (SPDM 1.2, opaque data of 16 bytes). Discharged in P23.
pub fn key_exchange_req_encode(s: &spdmlib::message::SpdmKeyExchangeRequestPayload, _c: &mut spdmlib::common::SpdmContext, w: &mut codec::Writer) -> Result<usize, spdmlib::error::SpdmStatus> {
    assert!(s.exchange.data_size == 64 && s.opaque.data_size == 16, "sizes");
    let id = s.req_session_id.to_le_bytes();
    w.extend_from_slice(&[s.measurement_summary_hash_type.get_u8(), s.slot_id, id[0], id[1], s.session_policy, 0]).unwrap();
    w.extend_from_slice(&s.random.data).unwrap();
    w.extend_from_slice(&s.exchange.data[..64]).unwrap();
    w.extend_from_slice(&[16, 0]).unwrap();
    w.extend_from_slice(&s.opaque.data[..16]).unwrap();
    Ok(120)
}
/// `SpdmPskExchangeRequestPayload::spdm_encode`: the fields in order (hint of 5 bytes, context of 32, opaque data of 16). Discharged in P23.
pub fn psk_exchange_req_encode(s: &spdmlib::message::SpdmPskExchangeRequestPayload, _c: &mut spdmlib::common::SpdmContext, w: &mut codec::Writer) -> Result<usize, spdmlib::error::SpdmStatus> {
    assert!(s.psk_hint.data_size == 5 && s.psk_context.data_size == 32 && s.opaque.data_size == 16, "sizes");
    let id = s.req_session_id.to_le_bytes();
    w.extend_from_slice(&[s.measurement_summary_hash_type.get_u8(), 0, id[0], id[1], 5, 0, 32, 0, 16, 0]).unwrap();
    w.extend_from_slice(&s.psk_hint.data[..5]).unwrap();
    w.extend_from_slice(&s.psk_context.data[..32]).unwrap();
    w.extend_from_slice(&s.opaque.data[..16]).unwrap();
    Ok(63)
}
/// Whether the handshake is in the clear.
fn in_the_clear(c: &spdmlib::common::SpdmContext) -> bool {
    let n = &c.negotiate_info;
    n.req_capabilities_sel.contains(SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP) && n.rsp_capabilities_sel.contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
}
/// The last 32 bytes.
fn last_digest(b: &[u8]) -> SpdmDigestStruct {
    let mut d = SpdmDigestStruct { data_size: 32, data: Box::new([0; SPDM_MAX_HASH_SIZE]) };
    d.data[..32].copy_from_slice(&b[b.len() - 32..]);
    d
}
/// A KEY_EXCHANGE_RSP or PSK_EXCHANGE_RSP that is well formed: heartbeat period, session, mutual authentication, slot for it.
pub static mut EXCHANGED: (u8, u16, u8, u8) = (0, 0, 0, 0);
/// `SpdmKeyExchangeResponsePayload::spdm_read` (discharged in P23), of a response that is well formed: its last bytes are the
/// signature and, unless the handshake is in the clear, the verify data.
pub fn key_exchange_rsp_read(c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmKeyExchangeResponsePayload> {
    let b = r.take(unsafe { USED }).unwrap();
    let mut p = spdmlib::message::SpdmKeyExchangeResponsePayload::default();
    let (heartbeat, id, mutual, slot) = unsafe { EXCHANGED };
    p.heartbeat_period = heartbeat;
    p.rsp_session_id = id;
    p.mut_auth_req = spdmlib::message::SpdmKeyExchangeMutAuthAttributes::from_bits_truncate(mutual);
    p.req_slot_id = slot;
    p.exchange.data_size = 64;
    p.exchange.data[..64].copy_from_slice(unsafe { &KEX_KEY });
    let mut end = b.len();
    if !in_the_clear(c) {
        p.verify_data = last_digest(b);
        end -= 32;
    }
    p.signature.data_size = 64;
    p.signature.data[..64].copy_from_slice(&b[end - 64..end]);
    Some(p)
}
/// `SpdmPskExchangeResponsePayload::spdm_read` (discharged in P23), of a response that is well formed: its last bytes are the verify data.
pub fn psk_exchange_rsp_read(_c: &mut spdmlib::common::SpdmContext, r: &mut Reader) -> Option<spdmlib::message::SpdmPskExchangeResponsePayload> {
    let b = r.take(unsafe { USED }).unwrap();
    let mut p = spdmlib::message::SpdmPskExchangeResponsePayload::default();
    let (heartbeat, id, _, _) = unsafe { EXCHANGED };
    p.heartbeat_period = heartbeat;
    p.rsp_session_id = id;
    p.verify_data = last_digest(b);
    Some(p)
}
