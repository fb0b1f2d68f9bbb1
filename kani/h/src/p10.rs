//! P10: NEGOTIATE_ALGORITHMS and ALGORITHMS messages.
//! @level proof
use crate::{contracts::*, cx::*, nd, spy::*};
use codec::{Codec, Reader, Writer};
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;

// Capability bits (DSP0274).
const CERT: u32 = 1 << 1;
const CHAL: u32 = 1 << 2;
const MEAS_NO_SIG: u32 = 1 << 3;
const MEAS_SIG: u32 = 1 << 4;
const ENCRYPT: u32 = 1 << 6;
const MAC: u32 = 1 << 7;
const MUT_AUTH: u32 = 1 << 8;
const KEY_EX: u32 = 1 << 9;
const PSK: u32 = 1 << 10;
const PSK_2: u32 = 1 << 11;

const FMT1: u8 = 2;
fn few(x: u32) -> bool {
    x & x.wrapping_sub(1) == 0
}
/// `n` structures at `b`, of known types in increasing order.
fn structs_legal(b: &[u8], n: usize) -> bool {
    let mut ok = true;
    for i in 0..4 {
        if i < n {
            let s = &b[4 * i..4 * i + 4];
            ok &= s[0] >= 2 && s[0] <= 5 && s[1] == 0x20;
            if i > 0 {
                ok &= b[4 * i - 4] < s[0];
            }
        }
    }
    ok
}
fn check_struct(a: &SpdmAlgStruct, s: &[u8]) {
    let raw = le16(&s[2..4]) & defined(s[0]);
    assert!(a.alg_type.get_u8() == s[0], "structure type");
    match &a.alg_supported {
        SpdmAlg::SpdmAlgoDhe(v) => assert!(s[0] == 2 && v.bits() == raw, "DHE set"),
        SpdmAlg::SpdmAlgoAead(v) => assert!(s[0] == 3 && v.bits() == raw, "AEAD set"),
        SpdmAlg::SpdmAlgoReqAsym(v) => assert!(s[0] == 4 && v.bits() == raw, "requester signature set"),
        SpdmAlg::SpdmAlgoKeySchedule(v) => assert!(s[0] == 5 && v.bits() == raw, "key schedule set"),
        SpdmAlg::SpdmAlgoUnknown(_) => assert!(false, "unknown structure"),
    }
}

macro_rules! request {
    ($ver:ident, $n:literal, $len:expr) => {{
        ctx!(c);
        let v = SpdmVersion::$ver;
        let ver = v.get_u8();
        c.negotiate_info.spdm_version_sel = v;
        let mut b: [u8; 48] = nd::any();
        if ver >= 0x11 {
            b[0] = $n;
        }
        let len: usize = $len;
        let mut r = Reader::init(&b[..len]);
        let p = SpdmNegotiateAlgorithmsRequestPayload::spdm_read(c, &mut r);
        let n = if ver >= 0x11 { $n as usize } else { 0 };
        let size = 30 + 4 * if n <= 4 { n } else { 4 };
        let ok = n <= 4
            && len >= size
            && le16(&b[2..4]) as usize == 32 + 4 * n
            && (ver < 0x12 || b[5] & !FMT1 == 0)
            && b[26] == 0
            && b[27] == 0
            && structs_legal(&b[30..46], n);
        assert!(p.is_some() == ok, "accepted exactly when complete and legal");
        cover!(p.is_some() == (n <= 4 && len >= size), "reached");
        if let Some(p) = p {
            assert!(r.used() == size, "size");
            assert!(p.measurement_specification.bits() == b[4] & 1, "measurement specification");
            assert!(p.other_params_support.bits() == if ver >= 0x12 { b[5] } else { 0 }, "opaque format");
            assert!(p.base_asym_algo.bits() == le32(&b[6..10]) & 0xff, "signature algorithms");
            assert!(p.base_hash_algo.bits() == le32(&b[10..14]) & 7, "hash algorithms");
            assert!(p.alg_struct_count as usize == n, "structure count");
            for i in 0..4 {
                if i < n {
                    check_struct(&p.alg_struct[i], &b[30 + 4 * i..34 + 4 * i]);
                }
            }
        }
    }};
}
macro_rules! response {
    ($ver:ident, $n:literal, $len:expr) => {{
        ctx!(c);
        let v = SpdmVersion::$ver;
        let ver = v.get_u8();
        c.negotiate_info.spdm_version_sel = v;
        let (req, rsp): (u32, u32) = (nd::any(), nd::any());
        c.negotiate_info.req_capabilities_sel = SpdmRequestCapabilityFlags::from_bits_truncate(req);
        c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits_truncate(rsp);
        let mut b: [u8; 52] = nd::any();
        if ver >= 0x11 {
            b[0] = $n;
        }
        let len: usize = $len;
        let mut r = Reader::init(&b[..len]);
        let p = SpdmAlgorithmsResponsePayload::spdm_read(c, &mut r);
        let n = if ver >= 0x11 { $n as usize } else { 0 };
        let size = 34 + 4 * if n <= 4 { n } else { 4 };

        // What has been agreed on demands a selection: exactly one algorithm.
        let both = |m: u32| req & m != 0 && rsp & m != 0;
        let meas = rsp & (MEAS_NO_SIG | MEAS_SIG) != 0;
        let sign = rsp & (CERT | CHAL | MEAS_SIG) != 0 || both(KEY_EX);
        let psk = rsp & (PSK | PSK_2) != 0;
        let hash = sign || (psk && req & PSK != 0);
        let sel = |x: u32, must: bool| few(x) && (!must || x != 0);
        let (spec, other) = (b[4] as u32 & 1, if ver >= 0x12 { b[5] as u32 } else { 0 });
        let (mh, asym, bh) = (le32(&b[6..10]) & 0xff, le32(&b[10..14]) & 0xff, le32(&b[14..18]) & 7);
        let mut ok = n <= 4
            && len >= size
            && le16(&b[2..4]) as usize == 36 + 4 * n
            && other & !(FMT1 as u32) == 0
            && !(ver >= 0x12 && (rsp & KEY_EX != 0 || psk) && other == 0)
            && sel(spec, meas)
            && sel(mh, meas)
            && sel(asym, sign)
            && sel(bh, hash)
            && b[30] == 0
            && b[31] == 0
            && structs_legal(&b[34..50], n);
        for i in 0..4 {
            if i < n {
                let s = &b[34 + 4 * i..38 + 4 * i];
                let must = match s[0] {
                    2 => both(KEY_EX),
                    3 => both(ENCRYPT) || both(MAC),
                    4 => both(MUT_AUTH),
                    _ => both(KEY_EX) || (psk && req & PSK != 0),
                };
                ok &= sel((le16(&s[2..4]) & defined(s[0])) as u32, must);
            }
        }
        assert!(p.is_some() == ok, "accepted exactly when complete, legal and selecting what is needed");
        cover!(p.is_some() == (n <= 4 && len >= size), "reached");
        if let Some(p) = p {
            assert!(r.used() == size, "size");
            assert!(p.measurement_specification_sel.bits() as u32 == spec, "measurement specification");
            assert!(p.other_params_selection.bits() as u32 == other, "opaque format");
            assert!(p.measurement_hash_algo.bits() == mh, "measurement hash algorithm");
            assert!(p.base_asym_sel.bits() == asym, "signature algorithm");
            assert!(p.base_hash_sel.bits() == bh, "hash algorithm");
            assert!(p.alg_struct_count as usize == n, "structure count");
            for i in 0..4 {
                if i < n {
                    check_struct(&p.alg_struct[i], &b[34 + 4 * i..38 + 4 * i]);
                }
            }
        }
    }};
}
fn table() -> ([SpdmAlgStruct; 4], [u8; 16]) {
    let x: [u16; 4] = nd::any();
    let (d, a, q, k) = (
        SpdmDheAlgo::from_bits_truncate(x[0]),
        SpdmAeadAlgo::from_bits_truncate(x[1]),
        SpdmReqAsymAlgo::from_bits_truncate(x[2]),
        SpdmKeyScheduleAlgo::from_bits_truncate(x[3]),
    );
    let bits = [d.bits(), a.bits(), q.bits(), k.bits()];
    let mut w = [0u8; 16];
    for i in 0..4 {
        w[4 * i] = 2 + i as u8;
        w[4 * i + 1] = 0x20;
        w[4 * i + 2] = bits[i] as u8;
        w[4 * i + 3] = (bits[i] >> 8) as u8;
    }
    (
        [
            SpdmAlgStruct { alg_type: SpdmAlgType::SpdmAlgTypeDHE, alg_supported: SpdmAlg::SpdmAlgoDhe(d) },
            SpdmAlgStruct { alg_type: SpdmAlgType::SpdmAlgTypeAEAD, alg_supported: SpdmAlg::SpdmAlgoAead(a) },
            SpdmAlgStruct { alg_type: SpdmAlgType::SpdmAlgTypeReqAsym, alg_supported: SpdmAlg::SpdmAlgoReqAsym(q) },
            SpdmAlgStruct { alg_type: SpdmAlgType::SpdmAlgTypeKeySchedule, alg_supported: SpdmAlg::SpdmAlgoKeySchedule(k) },
        ],
        w,
    )
}
/// `at`: bytes of measurement hash selection (0 in the request, 4 in the response).
macro_rules! write {
    ($ver:ident, $n:literal, $c:ident, $mk:expr, $extra:literal, $base:literal) => {{
        ctx!($c);
        let v = SpdmVersion::$ver;
        let ver = v.get_u8();
        $c.negotiate_info.spdm_version_sel = v;
        let (t, wt) = table();
        let n: u8 = $n;
        let (spec, other, mh, asym, bh) = (
            SpdmMeasurementSpecification::from_bits_truncate(nd::any()),
            SpdmOpaqueSupport::from_bits_truncate(nd::any()),
            SpdmMeasurementHashAlgo::from_bits_truncate(nd::any()),
            SpdmBaseAsymAlgo::from_bits_truncate(nd::any()),
            SpdmBaseHashAlgo::from_bits_truncate(nd::any()),
        );
        let p = $mk(spec, other, mh, asym, bh, n, t);
        let m = if ver >= 0x11 { n } else { 0 };
        const X: usize = $extra;
        let size = 30 + X + 4 * m as usize;
        let mut want = [0u8; 52];
        want[0] = m;
        want[2] = $base + 4 * m;
        want[4] = spec.bits();
        want[5] = if ver >= 0x12 { other.bits() } else { 0 };
        if X == 4 {
            want[6..10].copy_from_slice(&mh.bits().to_le_bytes());
        }
        want[6 + X..10 + X].copy_from_slice(&asym.bits().to_le_bytes());
        want[10 + X..14 + X].copy_from_slice(&bh.bits().to_le_bytes());
        want[30 + X..46 + X].copy_from_slice(&wt);
        for i in size..52 {
            want[i] = 0xEE;
        }
        let mut buf = [0xEEu8; 52];
        let mut w = Writer::init(&mut buf);
        let r = p.spdm_encode($c, &mut w);
        assert!(r == Ok(size) && w.used() == size, "size");
        assert!(buf == want, "layout");
        // one byte too few
        let mut buf = [0xEEu8; 52];
        let mut w = Writer::init(&mut buf[..size - 1]);
        assert!(p.spdm_encode($c, &mut w).is_err(), "refused when it does not fit");
        assert!(buf[size - 1] == 0xEE && buf[51] == 0xEE, "nothing beyond the end");
        cover!(true, "written");
    }};
}
fn req(s: SpdmMeasurementSpecification, o: SpdmOpaqueSupport, _m: SpdmMeasurementHashAlgo, a: SpdmBaseAsymAlgo, h: SpdmBaseHashAlgo, n: u8, t: [SpdmAlgStruct; 4]) -> SpdmNegotiateAlgorithmsRequestPayload {
    SpdmNegotiateAlgorithmsRequestPayload { measurement_specification: s, other_params_support: o, base_asym_algo: a, base_hash_algo: h, alg_struct_count: n, alg_struct: t }
}
fn rsp(s: SpdmMeasurementSpecification, o: SpdmOpaqueSupport, m: SpdmMeasurementHashAlgo, a: SpdmBaseAsymAlgo, h: SpdmBaseHashAlgo, n: u8, t: [SpdmAlgStruct; 4]) -> SpdmAlgorithmsResponsePayload {
    SpdmAlgorithmsResponsePayload { measurement_specification_sel: s, other_params_selection: o, measurement_hash_algo: m, base_asym_sel: a, base_hash_sel: h, alg_struct_count: n, alg_struct: t }
}

/// Any length up to the longest.
fn upto(n: usize) -> usize {
    let len = nd::any();
    nd::assume(len <= n);
    len
}

harnesses! {
    /// The contract assumed of the structure's decoder below holds of the decoder.
    /// @fns: SpdmAlgStruct::read
    /// @cfg: small
    #[unwind(6)]
    fn alg_struct_contract_holds() {
        let b: [u8; 4] = nd::any();
        let n: usize = nd::any();
        nd::assume(n <= 4);
        let (mut r, mut q) = (Reader::init(&b[..n]), Reader::init(&b[..n]));
        let (p, c) = (SpdmAlgStruct::read(&mut r), alg_struct_read(&mut q));
        cover!(p.is_some(), "accepted");
        assert!(p.is_some() == c.is_some(), "accepted when the contract says so");
        if let Some(p) = p {
            check_struct(&p, &b);
            check_struct(&c.unwrap(), &b);
            assert!(r.used() == 4 && q.used() == 4, "four bytes");
        }
    }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn request_read_10() { request!(SpdmVersion10, 4, upto(34)) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn request_read_11_0() { request!(SpdmVersion11, 0, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_11_1() { request!(SpdmVersion11, 1, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_11_2() { request!(SpdmVersion11, 2, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_11_3() { request!(SpdmVersion11, 3, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_11_4() { request!(SpdmVersion11, 4, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn request_read_11_5() { request!(SpdmVersion11, 5, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn request_read_12_0() { request!(SpdmVersion12, 0, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_12_1() { request!(SpdmVersion12, 1, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_12_2() { request!(SpdmVersion12, 2, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_12_3() { request!(SpdmVersion12, 3, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_12_4() { request!(SpdmVersion12, 4, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn request_read_12_5() { request!(SpdmVersion12, 5, 48) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @bound: message one byte short
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_12_0_cut() { request!(SpdmVersion12, 0, 29) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @bound: message one byte short
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_12_1_cut() { request!(SpdmVersion12, 1, 33) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_read
    /// @cfg: small
    /// @bound: message one byte short
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn request_read_12_4_cut() { request!(SpdmVersion12, 4, 45) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn response_read_10() { response!(SpdmVersion10, 4, upto(38)) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn response_read_11_0() { response!(SpdmVersion11, 0, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_11_1() { response!(SpdmVersion11, 1, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_11_2() { response!(SpdmVersion11, 2, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_11_3() { response!(SpdmVersion11, 3, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_11_4() { response!(SpdmVersion11, 4, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn response_read_11_5() { response!(SpdmVersion11, 5, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn response_read_12_0() { response!(SpdmVersion12, 0, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_12_1() { response!(SpdmVersion12, 1, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_12_2() { response!(SpdmVersion12, 2, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @tier: thorough
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_12_3() { response!(SpdmVersion12, 3, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_12_4() { response!(SpdmVersion12, 4, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(13)]
    fn response_read_12_5() { response!(SpdmVersion12, 5, 52) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @bound: message one byte short
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_12_0_cut() { response!(SpdmVersion12, 0, 33) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @bound: message one byte short
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_12_1_cut() { response!(SpdmVersion12, 1, 37) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_read
    /// @cfg: small
    /// @bound: message one byte short
    #[stub(<spdmlib::protocol::SpdmAlgStruct as codec::Codec>::read, crate::contracts::alg_struct_read)]
    #[unwind(13)]
    fn response_read_12_4_cut() { response!(SpdmVersion12, 4, 49) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn request_write_10_4() { write!(SpdmVersion10, 4, c, req, 0, 32) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn response_write_10_4() { write!(SpdmVersion10, 4, c, rsp, 4, 36) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn request_write_11_4() { write!(SpdmVersion11, 4, c, req, 0, 32) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn response_write_11_4() { write!(SpdmVersion11, 4, c, rsp, 4, 36) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn request_write_12_0() { write!(SpdmVersion12, 0, c, req, 0, 32) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn response_write_12_0() { write!(SpdmVersion12, 0, c, rsp, 4, 36) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_encode
    /// @cfg: small
    /// @tier: thorough
    #[unwind(53)]
    fn request_write_12_1() { write!(SpdmVersion12, 1, c, req, 0, 32) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_encode
    /// @cfg: small
    /// @tier: thorough
    #[unwind(53)]
    fn response_write_12_1() { write!(SpdmVersion12, 1, c, rsp, 4, 36) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_encode
    /// @cfg: small
    /// @tier: thorough
    #[unwind(53)]
    fn request_write_12_2() { write!(SpdmVersion12, 2, c, req, 0, 32) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_encode
    /// @cfg: small
    /// @tier: thorough
    #[unwind(53)]
    fn response_write_12_2() { write!(SpdmVersion12, 2, c, rsp, 4, 36) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_encode
    /// @cfg: small
    /// @tier: thorough
    #[unwind(53)]
    fn request_write_12_3() { write!(SpdmVersion12, 3, c, req, 0, 32) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_encode
    /// @cfg: small
    /// @tier: thorough
    #[unwind(53)]
    fn response_write_12_3() { write!(SpdmVersion12, 3, c, rsp, 4, 36) }
    /// @fns: SpdmNegotiateAlgorithmsRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn request_write_12_4() { write!(SpdmVersion12, 4, c, req, 0, 32) }
    /// @fns: SpdmAlgorithmsResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(53)]
    fn response_write_12_4() { write!(SpdmVersion12, 4, c, rsp, 4, 36) }
}
