//! P04: status codes.
//! @level proof
use crate::nd;
use codec::{Codec, Reader, Writer};
use core::convert::TryFrom;
use core::ops::{ControlFlow, Try};
use spdmlib::error::*;

/// Any status value the types can express.
fn any_status() -> Option<SpdmStatus> {
    let sev: u8 = nd::any();
    let code: u16 = nd::any();
    let src: u8 = nd::any();
    let severity = StatusSeverity::try_from(sev).ok()?;
    let status_code = match src {
        0 => StatusCode::SUCCESS,
        1 => StatusCode::CORE(StatusCodeCore::try_from(code).ok()?),
        2 => StatusCode::CRYPTO(StatusCodeCrypto::try_from(code).ok()?),
        3 => StatusCode::CERT_PARSE(StatusCodeCertParse::try_from(code).ok()?),
        4 => StatusCode::TRANSPORT(StatusCodeTransport::try_from(code).ok()?),
        5 => StatusCode::MEAS_COLLECT(StatusCodeMeasCollect::try_from(code).ok()?),
        _ => StatusCode::RNG(StatusCodeRNG::try_from(code).ok()?),
    };
    Some(SpdmStatus { severity, status_code })
}

harnesses! {
    /// A status and its 32-bit code determine each other.
    /// @fns: SpdmStatus::get_u32, SpdmStatus::from_u32, <SpdmStatus as Codec>::encode, <SpdmStatus as Codec>::read
    #[unwind(6)]
    fn status_to_code() {
        let s = any_status();
        cover!(s.is_some(), "a status");
        cover!(s == Some(SPDM_STATUS_ENCAP_APP_FAIL), "a transport status");
        if let Some(s) = s {
            let x = s.get_u32();
            assert!(SpdmStatus::from_u32(x) == Some(s), "the code identifies the status");
            assert!((x >> 28) as u8 == s.severity as u8, "severity is the top four bits");
            assert!(x & 0x0f00_0000 == 0, "reserved bits are zero");
            let (src, code) = match s.status_code {
                StatusCode::SUCCESS => (0, 0),
                StatusCode::CORE(c) => (1, c as u32),
                StatusCode::CRYPTO(c) => (2, c as u32),
                StatusCode::CERT_PARSE(c) => (3, c as u32),
                StatusCode::TRANSPORT(c) => (4, c as u32),
                StatusCode::MEAS_COLLECT(c) => (5, c as u32),
                StatusCode::RNG(c) => (6, c as u32),
            };
            assert!((x >> 16) & 0xff == src && x & 0xffff == code, "source and code fields");
            let mut b = [0u8; 4];
            assert!(s.encode(&mut Writer::init(&mut b)) == Ok(4), "encodes in four bytes");
            assert!(b == x.to_le_bytes(), "encoding is the little-endian code");
        }
    }
    /// A 32-bit code that is accepted is the code of the status it yields.
    /// @fns: SpdmStatus::from_u32, SpdmStatus::get_u32, StatusCode::try_from
    #[unwind(6)]
    fn code_to_status() {
        let x: u32 = nd::any();
        let s = SpdmStatus::from_u32(x);
        cover!(s.is_some() && x & 0xffff == 0xfd, "a code");
        cover!(s.is_none(), "not a code");
        if let Some(s) = s {
            assert!(s.get_u32() == x, "an accepted code is the code of its status");
        }
    }
    /// `?` on a status stops on everything but success, and keeps the status.
    /// @fns: <SpdmStatus as Try>::branch, <SpdmStatus as Try>::from_output, SpdmStatus::spdm_status_is_success, SpdmStatus::spdm_status_is_error
    #[unwind(2)]
    fn question_mark() {
        if let Some(s) = any_status() {
            cover!(s == SPDM_STATUS_SUCCESS, "success");
            cover!(s == SPDM_STATUS_VERIF_FAIL, "failure");
            assert!(s.spdm_status_is_error() != s.spdm_status_is_success(), "error or success, not both");
            assert!(s.spdm_status_is_success() == (s.severity as u8 == 0), "success is severity zero");
            match s.branch() {
                ControlFlow::Continue(()) => assert!(s == SPDM_STATUS_SUCCESS, "only success continues"),
                ControlFlow::Break(r) => assert!(r == s && s != SPDM_STATUS_SUCCESS, "failure is propagated unchanged"),
            }
        }
    }
    /// Every named status has the code libspdm gives it, so no two coincide.
    /// @fns: SPDM_STATUS_*
    #[unwind(6)]
    fn named() {
        let core = |c: u32| 0x8001_0000 + c;
        assert!(SPDM_STATUS_SUCCESS.get_u32() == 0, "SUCCESS");
        assert!(SPDM_STATUS_INVALID_PARAMETER.get_u32() == core(1), "INVALID_PARAMETER");
        assert!(SPDM_STATUS_UNSUPPORTED_CAP.get_u32() == core(2), "UNSUPPORTED_CAP");
        assert!(SPDM_STATUS_INVALID_STATE_LOCAL.get_u32() == core(3), "INVALID_STATE_LOCAL");
        assert!(SPDM_STATUS_INVALID_STATE_PEER.get_u32() == core(4), "INVALID_STATE_PEER");
        assert!(SPDM_STATUS_INVALID_MSG_FIELD.get_u32() == core(5), "INVALID_MSG_FIELD");
        assert!(SPDM_STATUS_INVALID_MSG_SIZE.get_u32() == core(6), "INVALID_MSG_SIZE");
        assert!(SPDM_STATUS_NEGOTIATION_FAIL.get_u32() == core(7), "NEGOTIATION_FAIL");
        assert!(SPDM_STATUS_BUSY_PEER.get_u32() == core(8), "BUSY_PEER");
        assert!(SPDM_STATUS_NOT_READY_PEER.get_u32() == core(9), "NOT_READY_PEER");
        assert!(SPDM_STATUS_ERROR_PEER.get_u32() == core(10), "ERROR_PEER");
        assert!(SPDM_STATUS_RESYNCH_PEER.get_u32() == core(11), "RESYNCH_PEER");
        assert!(SPDM_STATUS_BUFFER_FULL.get_u32() == core(12), "BUFFER_FULL");
        assert!(SPDM_STATUS_BUFFER_TOO_SMALL.get_u32() == core(13), "BUFFER_TOO_SMALL");
        assert!(SPDM_STATUS_SESSION_NUMBER_EXCEED.get_u32() == core(14), "SESSION_NUMBER_EXCEED");
        assert!(SPDM_STATUS_SESSION_MSG_ERROR.get_u32() == core(15), "SESSION_MSG_ERROR");
        assert!(SPDM_STATUS_ACQUIRE_FAIL.get_u32() == core(16), "ACQUIRE_FAIL");
        assert!(SPDM_STATUS_SESSION_TRY_DISCARD_KEY_UPDATE.get_u32() == core(17), "SESSION_TRY_DISCARD_KEY_UPDATE");
        assert!(SPDM_STATUS_DECODE_AEAD_FAIL.get_u32() == core(0xfe), "DECODE_AEAD_FAIL");
        assert!(SPDM_STATUS_CRYPTO_ERROR.get_u32() == 0x8002_0000, "CRYPTO_ERROR");
        assert!(SPDM_STATUS_VERIF_FAIL.get_u32() == 0x8002_0001, "VERIF_FAIL");
        assert!(SPDM_STATUS_SEQUENCE_NUMBER_OVERFLOW.get_u32() == 0x8002_0002, "SEQUENCE_NUMBER_OVERFLOW");
        assert!(SPDM_STATUS_VERIF_NO_AUTHORITY.get_u32() == 0x8002_0003, "VERIF_NO_AUTHORITY");
        assert!(SPDM_STATUS_INVALID_CERT.get_u32() == 0x8003_0000, "INVALID_CERT");
        assert!(SPDM_STATUS_SEND_FAIL.get_u32() == 0x8004_0000, "SEND_FAIL");
        assert!(SPDM_STATUS_RECEIVE_FAIL.get_u32() == 0x8004_0001, "RECEIVE_FAIL");
        assert!(SPDM_STATUS_DECAP_FAIL.get_u32() == 0x8004_00fe, "DECAP_FAIL");
        assert!(SPDM_STATUS_DECAP_APP_FAIL.get_u32() == 0x8004_00fd, "DECAP_APP_FAIL");
        assert!(SPDM_STATUS_ENCAP_FAIL.get_u32() == 0x8004_00fc, "ENCAP_FAIL");
        assert!(SPDM_STATUS_ENCAP_APP_FAIL.get_u32() == 0x8004_00fb, "ENCAP_APP_FAIL");
        assert!(SPDM_STATUS_MEAS_INVALID_INDEX.get_u32() == 0x8005_0000, "MEAS_INVALID_INDEX");
        assert!(SPDM_STATUS_MEAS_INTERNAL_ERROR.get_u32() == 0x8005_0001, "MEAS_INTERNAL_ERROR");
        assert!(SPDM_STATUS_LOW_ENTROPY.get_u32() == 0x8006_0000, "LOW_ENTROPY");
        cover!(true, "reached");
    }
}
