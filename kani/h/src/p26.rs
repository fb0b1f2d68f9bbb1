//! P26: a requester obtains the measurements of a responder.
//! @level proof
//! @assume hash, random and signature providers are assumed primitives, recorded; transcripts, sending and receiving are taken by contract (P11, P12)
use crate::{contracts::*, cx::*, nd, rec::*, spy::*};
use codec::{Codec, Reader};
use core::mem::ManuallyDrop;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;

const ID: u32 = 0xfffc_fffd;
const OTHER: u32 = 0xfffd_0203;
const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
/// Transcripts of the connection (1), of another session (2) and of the session (3).
macro_rules! requester {
    ($q:ident, $v:literal) => {
        qctx!($q);
        install_hash();
        install_random();
        install_verify();
        let g = &mut $q.common.negotiate_info;
        g.spdm_version_sel = ver($v);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
        $q.common.runtime_info.digest_context_l1l2 = spdmlib::crypto::hash::hash_ctx_init(HASH);
        for (i, s) in [OTHER, ID].into_iter().enumerate() {
            $q.common.session[i].setup(s).unwrap();
            $q.common.session[i].runtime_info.digest_context_l1l2 = spdmlib::crypto::hash::hash_ctx_init(HASH);
        }
        $q.common.runtime_info.need_measurement_signature = nd::any();
    };
}
/// A request with attributes `$a`, for operation `$op`; the answer takes all but the last two bytes received.
macro_rules! measure {
    ($v:literal, $a:literal, $op:expr, $slot:literal, $session:expr, $fail:expr, $hash:literal) => {{
        requester!(q, $v);
        let sign = $a & 1 == 1;
        let c: [u8; 41] = nd::any();
        let mut chain = SpdmCertChainBuffer::default();
        chain.data_size = 41;
        chain.data[..41].copy_from_slice(&c);
        q.common.peer_info.peer_cert_chain[$slot] = Some(chain);
        let (changed, was): (u8, u8) = (nd::any(), nd::any());
        nd::assume(changed < 4 && was < 4);
        q.common.runtime_info.content_changed = SpdmMeasurementContentChanged::from_bits(was << 4).unwrap();
        let op: u8 = $op;
        unsafe {
            FAIL = $fail;
            HASH_FAIL = $hash;
            USED = 102;
            MEASURED = (nd::any(), changed << 4, nd::any(), nd::any());
            RECORD = nd::any();
        }
        let mut m: [u8; 106] = nd::any();
        m[..2].copy_from_slice(&[$v, 0x60]);
        ans(m, 106);
        let s: Option<u32> = $session;
        let mut total: u8 = nd::any();
        let total_before = total;
        let mut record = ManuallyDrop::new(SpdmMeasurementRecordStructure::default());
        let blocks: u8 = nd::any();
        record.number_of_blocks = blocks;
        let r = q.send_receive_spdm_measurement(s, $slot, SpdmMeasurementAttributes::from_bits($a).unwrap(), SpdmMeasurementOperation::read_bytes(&[op]).unwrap(), &mut total, &mut record);
        let ok = r.is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0xE0 && call(0).session == s, "transcripts end");
        assert!(call(1).what == RAND && call(1).len == 32, "a random nonce of 32 bytes");
        let n = if !sign { 4 } else if $v >= 0x11 { 37 } else { 36 };
        let f = |p: usize| match p {
            0..=3 => [$v, 0xE0, $a, op][p],
            4..=35 => unsafe { RND[p - 4] },
            _ => $slot,
        };
        if $fail.0 != RAND {
            assert!(is_bytes(2, SENT, s, n, f), "GET_MEASUREMENTS");
        }
        if $fail == NO || $fail.0 == VERIFY {
            assert!(call(3).what == RECEIVED && call(3).session == s && call(3).arg == 1, "there is time for the measurement");
            assert!(q.common.runtime_info.need_measurement_signature == sign, "a signature is read exactly if asked for");
            assert!(q.common.runtime_info.content_changed.bits() == if $v >= 0x12 { changed << 4 } else { was << 4 }, "whether content changed");
            assert!(is_bytes(4, APPEND_M, s, n, f) && is_ans(5, APPEND_M, s, if sign { 40 } else { 104 }), "transcript of request and response up to the signature");
            if sign {
                let (d, e) = (hash_log(3), hash_log(4));
                assert!(times(RESET_M) == 1 && only(RESET_M) == called() - 1 && call(only(RESET_M)).session == s, "the transcript ends");
                assert!(ok == ($fail == NO && $hash == NONE && $v >= 0x12), "accepted exactly when the signature verifies");
                assert!(ok || r == Err(SPDM_STATUS_VERIF_FAIL), "not verified");
                assert!(d.op == Op::Dup && d.arg == if s.is_none() { 1 } else { 3 }, "transcript hash, of a copy");
                if $hash == NONE && $v >= 0x12 {
                    assert!(e.op == Op::Final && e.ctx == d.ctx, "of the whole transcript");
                    assert!(is_bytes(6, VERIFY, None, 132, |p| signed(p, b"\0\0\0\0\0\0responder-measurements signing", digest_tag(d.ctx))), "signed for this purpose");
                    assert!(call(6).arg == (HASH.bits() << 16 | ASYM.bits()) as usize, "with the negotiated algorithms");
                    assert!(unsafe { VERIFY_KEY } == (5, probe(&c[36..])), "by the certificates retrieved from this slot");
                    assert!(unsafe { VERIFY_SIG.0 == 64 && (PROBE >= 64 || VERIFY_SIG.1 == m[40 + PROBE]) }, "this signature");
                } else {
                    assert!(times(VERIFY) == 0, "nothing verified");
                }
            } else {
                assert!(ok && times(RESET_M) == 0 && times(VERIFY) == 0 && called() == 6, "the transcript continues");
            }
        } else {
            assert!(!ok && times(VERIFY) == 0, "failure reported");
        }
        let (number, _, _, theirs) = unsafe { MEASURED };
        if ok {
            assert!(total == if op == 0 { number } else { theirs }, "how many there are, or were measured");
            assert!(record.number_of_blocks == theirs && record.measurement_record_length.get() == 16, "the record");
            let p = unsafe { PROBE };
            assert!(p >= 16 || record.measurement_record_data[p] == unsafe { RECORD[p] }, "its content");
        } else {
            assert!(total == total_before && record.number_of_blocks == blocks && record.measurement_record_length.get() == 0, "nothing reported");
        }
        cover!(true, "done");
    }};
}
/// Anything but a well formed answer: nothing is recorded, nothing reported.
macro_rules! other {
    ($len:literal, $session:expr) => {{
        requester!(q, 0x12);
        let m: [u8; 4] = nd::any();
        ans(m, $len);
        let mut total = 7;
        let mut record = ManuallyDrop::new(SpdmMeasurementRecordStructure::default());
        let e = q.send_receive_spdm_measurement($session, 0, SpdmMeasurementAttributes::empty(), SpdmMeasurementOperation::SpdmMeasurementRequestAll, &mut total, &mut record).err();
        assert!(times(APPEND_M) == 0 && times(SENT) == 1 && times(RECEIVED) == 1 && total == 7, "asked once, nothing recorded");
        assert!(e.is_some(), "an error");
        if $len > 1 {
            assert!(m[0] == 0x12 || e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "of another version");
            assert!(m[0] != 0x12 || m[1] != 0x60 || e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "incomplete");
            assert!(m[0] != 0x12 || m[1] == 0x60 || m[1] == 0x7F || e == Some(SPDM_STATUS_ERROR_PEER), "of another kind");
            assert!(m[0] != 0x12 || m[1] != 0x7F || m[2] != 3 || e == Some(SPDM_STATUS_BUSY_PEER), "busy");
        }
        cover!(true, "done");
    }};
}
/// MEASUREMENTS, signed or not, with a record of `$n` bytes (0, or one block with `$n` - 7 raw bytes) and opaque data of `$o`.
macro_rules! read {
    ($sign:literal, $n:literal, $o:literal, $cut:literal) => {{
        requester!(q, 0x12);
        q.common.runtime_info.need_measurement_signature = $sign;
        const S: usize = 38 + $n;
        const N: usize = S + 2 + $o + if $sign { 64 } else { 0 };
        let mut m: [u8; N] = nd::any();
        m[2..6].copy_from_slice(&[($n > 0) as u8, $n, 0, 0]);
        if $n > 0 {
            nd::assume(m[6] > 0);
            m[7..13].copy_from_slice(&[1, ($n as u8).wrapping_sub(4), 0, 0x81, ($n as u8).wrapping_sub(7), 0]);
        }
        (m[S], m[S + 1]) = ($o, 0);
        let d = ManuallyDrop::new(SpdmMeasurementsResponsePayload::spdm_read(&mut q.common, &mut Reader::init(&m[..N - $cut])));
        assert!(d.is_some() == ($cut == 0), "exactly the complete responses");
        if let Some(d) = &*d {
            let same = |a: &[u8], b: &[u8]| probe(a) == probe(b) && a.len() == b.len();
            assert!(d.number_of_measurement == m[0] && d.slot_id == m[1] & 15 && d.content_changed.bits() == m[1] & 0x30, "parameters");
            let r = &d.measurement_record;
            assert!(r.number_of_blocks == m[2] && r.measurement_record_length.get() == $n && same(&r.measurement_record_data[..$n], &m[6..6 + $n]), "record");
            assert!(same(&d.nonce.data, &m[S - 32..S]), "nonce");
            assert!(d.opaque.data_size == $o && same(&d.opaque.data[..$o], &m[S + 2..S + 2 + $o]), "opaque data");
            assert!(!$sign || d.signature.data_size == 64 && same(&d.signature.data[..64], &m[S + 2 + $o..]), "signature");
        }
        cover!(d.is_some() || $cut != 0, "read");
    }};
}
/// A record of `$n` bytes: exactly well formed, ascending blocks are accepted.
macro_rules! record {
    ($alg:expr, $size:expr, $n:literal, $blocks:literal, [$($at:literal: $v:literal),*]) => {{
        requester!(q, 0x12);
        q.common.negotiate_info.measurement_hash_sel = $alg;
        let size: Option<u16> = $size;
        let mut m: [u8; 4 + $n] = nd::any();
        m[..4].copy_from_slice(&[$blocks, $n, 0, 0]);
        $( (m[4 + $at + 2], m[4 + $at + 3], m[4 + $at + 5], m[4 + $at + 6]) = ($v + 3, 0, $v, 0); )*
        let d = ManuallyDrop::new(SpdmMeasurementRecordStructure::spdm_read(&mut q.common, &mut Reader::init(&m)));
        let (mut good, mut last, mut end) = (true, 0, 0);
        $(
            let b = &m[4 + $at..];
            let kind = b[4] & 0x7f;
            good = good && $at == end && b[0] > last && b[1] & 1 == 1 && (b[4] & 0x80 != 0 || size == Some($v)) && (b[4] & 0x80 != 0 || kind < 5 || kind > 7);
            last = b[0];
            end = $at + 7 + $v;
        )*
        let _ = last;
        good = good && end == $n;
        assert!(d.is_some() == good, "exactly the well formed records");
        cover!(true, "done");
    }};
}
harnesses! {
    /// How many measurements there are.
    /// @fns: send_receive_spdm_measurement, send_receive_spdm_measurement_record, encode_spdm_measurement_record, handle_spdm_measurement_record_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn count() { measure!(0x12, 0, 0, 0, None, NO, -1) }
    /// In a session.
    /// @fns: send_receive_spdm_measurement, send_receive_spdm_measurement_record, encode_spdm_measurement_record, handle_spdm_measurement_record_response, verify_measurement_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn count_signed() { measure!(0x12, 1, 0, 2, Some(ID), NO, -1) }
    /// All of them.
    /// @fns: send_receive_spdm_measurement, send_receive_spdm_measurement_record, encode_spdm_measurement_record, handle_spdm_measurement_record_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn all() { measure!(0x12, 2, 0xff, 0, Some(ID), NO, -1) }
    /// All of them, signed.
    /// @fns: send_receive_spdm_measurement, send_receive_spdm_measurement_record, encode_spdm_measurement_record, handle_spdm_measurement_record_response, verify_measurement_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn all_signed() { measure!(0x12, 3, 0xff, 7, None, NO, -1) }
    /// Any one of them.
    /// @fns: send_receive_spdm_measurement, send_receive_spdm_measurement_record, encode_spdm_measurement_record, handle_spdm_measurement_record_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn one() { measure!(0x12, 0, nd::any(), 0, None, NO, -1) }
    /// Any one of them, signed.
    /// @fns: send_receive_spdm_measurement, send_receive_spdm_measurement_record, encode_spdm_measurement_record, handle_spdm_measurement_record_response, verify_measurement_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn one_signed() { measure!(0x12, 1, nd::any(), 0, Some(ID), NO, -1) }
    /// In SPDM 1.0.
    /// @fns: send_receive_spdm_measurement, encode_spdm_measurement_record, handle_spdm_measurement_record_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn all_10() { measure!(0x10, 0, 0xff, 0, None, NO, -1) }
    /// Hashed transcripts cannot be verified before 1.2.
    /// @fns: encode_spdm_measurement_record, verify_measurement_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn signed_10() { measure!(0x10, 1, 0xff, 0, None, NO, -1) }
    /// @fns: encode_spdm_measurement_record, verify_measurement_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn signed_11() { measure!(0x11, 1, 2, 3, Some(ID), NO, -1) }
    /// The signature does not verify.
    /// @fns: handle_spdm_measurement_record_response, verify_measurement_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn forged() { measure!(0x12, 1, 0xff, 0, None, (VERIFY, 0), -1) }
    /// The transcript cannot be hashed.
    /// @fns: handle_spdm_measurement_record_response, verify_measurement_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn unhashed() { measure!(0x12, 1, 0xff, 0, Some(ID), NO, 4) }
    /// No randomness.
    /// @fns: encode_spdm_measurement_record, send_receive_spdm_measurement_record
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn predictable() { measure!(0x12, 1, 0xff, 0, None, (RAND, 0), -1) }
    /// Nothing is received.
    /// @fns: send_receive_spdm_measurement_record
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn unanswered() { measure!(0x12, 1, 0xff, 0, Some(ID), (RECEIVED, 0), -1) }
    /// The request cannot be recorded.
    /// @fns: handle_spdm_measurement_record_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn unrecorded_request() { measure!(0x12, 1, 0xff, 0, None, (APPEND_M, 0), -1) }
    /// The response cannot be recorded.
    /// @fns: handle_spdm_measurement_record_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::measurements_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn unrecorded() { measure!(0x12, 0, 0xff, 0, Some(ID), (APPEND_M, 1), -1) }
    /// Any other answer.
    /// @fns: send_receive_spdm_measurement, handle_spdm_measurement_record_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_measurements_rsp)]
    #[stubs(requests)]
    #[unwind(110)]
    fn other() { other!(4, None) }
    /// No answer to speak of.
    /// @fns: handle_spdm_measurement_record_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmMeasurementsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_measurements_rsp)]
    #[stubs(requests)]
    #[unwind(110)]
    fn short() { other!(1, Some(ID)) }
    /// No such slot, no chain in it, or no such session: nothing is verified.
    /// @fns: send_receive_spdm_measurement, verify_measurement_signature
    /// @cfg: small
    #[stubs(requests)]
    #[unwind(110)]
    fn slot() {
        requester!(q, 0x12);
        let slot: u8 = nd::any();
        let mut record = ManuallyDrop::new(SpdmMeasurementRecordStructure::default());
        let mut total = 7;
        if slot >= 8 {
            assert!(q.send_receive_spdm_measurement(None, slot, SpdmMeasurementAttributes::empty(), SpdmMeasurementOperation::SpdmMeasurementRequestAll, &mut total, &mut record).is_err() && called() == 0 && total == 7, "refused");
        } else {
            let s = if nd::any() { None } else { Some(nd::any()) };
            assert!(q.verify_measurement_signature(slot, s, &SpdmSignatureStruct::default()).is_err() && called() == 0, "refused");
        }
        cover!(true, "refused");
    }
    /// MEASUREMENTS, signed.
    /// @fns: SpdmMeasurementsResponsePayload::spdm_read
    /// @bound: opaque data of 5 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 180
    #[unwind(70)]
    fn read_signed() { read!(true, 0, 5, 0) }
    /// MEASUREMENTS with a record.
    /// @fns: SpdmMeasurementsResponsePayload::spdm_read, SpdmMeasurementRecordStructure::spdm_read
    /// @bound: record of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 180
    #[unwind(70)]
    fn read_record() { read!(false, 12, 0, 0) }
    /// MEASUREMENTS, incomplete.
    /// @fns: SpdmMeasurementsResponsePayload::spdm_read
    /// @bound: record of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 180
    #[unwind(70)]
    fn read_cut() { read!(false, 12, 0, 1) }
    /// @fns: SpdmMeasurementsResponsePayload::spdm_read
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 180
    #[unwind(70)]
    fn read_cut_signed() { read!(true, 0, 0, 1) }
    /// A record longer than there is room for.
    /// @fns: SpdmMeasurementRecordStructure::spdm_read
    /// @bound: three lengths
    /// @cfg: small
    #[unwind(70)]
    fn record_long() {
        requester!(q, 0x12);
        for n in [spdmlib::config::MAX_SPDM_MEASUREMENT_RECORD_SIZE + 1, 0x1_0000, 0xff_ffff] {
            let mut m: [u8; 8] = nd::any();
            m[1..4].copy_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8]);
            let d = ManuallyDrop::new(SpdmMeasurementRecordStructure::spdm_read(&mut q.common, &mut Reader::init(&m)));
            assert!(d.is_none(), "refused");
        }
        cover!(true, "refused");
    }
    /// Two blocks: a digest or raw bytes, in ascending order.
    /// @fns: SpdmMeasurementRecordStructure::spdm_read, verify_measurement_record, SpdmMeasurementBlockStructure::spdm_read, SpdmDmtfMeasurementStructure::spdm_read
    /// @bound: two blocks
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn record_two() { record!(SpdmMeasurementHashAlgo::TPM_ALG_SHA_256, Some(32), 48, 2, [0: 32, 39: 2]) }
    /// Raw measurements alone were negotiated.
    /// @fns: SpdmMeasurementRecordStructure::spdm_read, verify_measurement_record, SpdmMeasurementBlockStructure::spdm_read, SpdmDmtfMeasurementStructure::spdm_read
    /// @bound: one block
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn record_raw() { record!(SpdmMeasurementHashAlgo::RAW_BIT_STREAM, None, 7, 1, [0: 0]) }
    /// No measurements were negotiated.
    /// @fns: SpdmMeasurementRecordStructure::spdm_read, verify_measurement_record, SpdmMeasurementBlockStructure::spdm_read, SpdmDmtfMeasurementStructure::spdm_read
    /// @bound: one block
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn record_none() { record!(SpdmMeasurementHashAlgo::empty(), None, 39, 1, [0: 32]) }
    /// Bytes after the last block.
    /// @fns: SpdmMeasurementRecordStructure::spdm_read, verify_measurement_record
    /// @bound: one block
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn record_rest() { record!(SpdmMeasurementHashAlgo::TPM_ALG_SHA_384, Some(48), 10, 1, [0: 2]) }
    /// A block whose size is not that of its measurement.
    /// @fns: SpdmMeasurementBlockStructure::spdm_read
    /// @bound: up to 8 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[unwind(70)]
    fn block_size() {
        requester!(q, 0x12);
        let (n, size): (u8, u16) = (nd::any(), nd::any());
        nd::assume(n <= 8);
        let mut m: [u8; 15] = nd::any();
        m[1..7].copy_from_slice(&[1, size as u8, (size >> 8) as u8, 0x81, n, 0]);
        let d = ManuallyDrop::new(SpdmMeasurementBlockStructure::spdm_read(&mut q.common, &mut Reader::init(&m)));
        assert!(d.is_some() == (size == 3 + n as u16), "exactly of its size");
        if let Some(d) = &*d {
            let p = unsafe { PROBE };
            assert!(d.index == m[0] && d.measurement.value_size == n as u16 && (p >= n as usize || d.measurement.value[p] == m[7 + p]), "the measurement");
        }
        cover!(d.is_some(), "read");
    }
}
