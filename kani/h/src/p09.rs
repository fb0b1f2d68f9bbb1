//! P09: VERSION and CAPABILITIES messages.
//! @level proof
use crate::{cx::*, nd, spy::*};
use codec::{Codec, Reader, Writer};
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;

// Capability bits (DSP0274, GET_CAPABILITIES and CAPABILITIES).
const CERT: u32 = 1 << 1;
const CHAL: u32 = 1 << 2;
const MEAS_NO_SIG: u32 = 1 << 3;
const MEAS_SIG: u32 = 1 << 4;
const MEAS_FRESH: u32 = 1 << 5;
const ENCRYPT: u32 = 1 << 6;
const MAC: u32 = 1 << 7;
const MUT_AUTH: u32 = 1 << 8;
const KEY_EX: u32 = 1 << 9;
const PSK: u32 = 1 << 10;
const PSK_2: u32 = 1 << 11;
const ENCAP: u32 = 1 << 12;
const HBEAT: u32 = 1 << 13;
const KEY_UPD: u32 = 1 << 14;
const CLEAR: u32 = 1 << 15;
const PUB_KEY: u32 = 1 << 16;
const ALIAS: u32 = 1 << 18;
const SET_CERT: u32 = 1 << 19;
const CSR: u32 = 1 << 20;
const RESET: u32 = 1 << 21;
const REQ_DEFINED: u32 = 0x0003_FFC6;
const RSP_DEFINED: u32 = 0x003F_FFFF;

/// Sessions need MAC; nothing about sessions without a way to set one up; clear handshakes need certificates' key exchange.
fn session_flags_legal(f: u32, psk: u32) -> bool {
    let has = |m: u32| f & m != 0;
    if has(KEY_EX | psk) {
        has(MAC) && !(has(CLEAR) && !has(KEY_EX))
    } else {
        !has(MAC | ENCRYPT | CLEAR | HBEAT | KEY_UPD)
    }
}
fn req_legal(f: u32, ver: u8) -> bool {
    let has = |m: u32| f & m != 0;
    !has(PSK_2)
        && session_flags_legal(f, PSK)
        && (if has(CERT | PUB_KEY) { !(has(CERT) && has(PUB_KEY)) && has(CHAL | KEY_EX) } else { !has(CHAL | MUT_AUTH) })
        && !(ver == 0x11 && has(MUT_AUTH) && !has(ENCAP))
}
fn rsp_legal(f: u32, ver: u8) -> bool {
    let has = |m: u32| f & m != 0;
    let measurement = !(has(MEAS_NO_SIG) && has(MEAS_SIG)) && !(has(MEAS_FRESH) && !has(MEAS_NO_SIG | MEAS_SIG));
    let identity = if ver == 0x10 {
        if has(MEAS_SIG) { has(CERT) } else { has(CERT) == has(CHAL) }
    } else {
        !(has(PSK) && has(PSK_2))
            && session_flags_legal(f, PSK | PSK_2)
            && (if has(CERT | PUB_KEY) { !(has(CERT) && has(PUB_KEY)) && has(CHAL | KEY_EX | MEAS_SIG) } else { !has(CHAL | KEY_EX | MEAS_SIG | MUT_AUTH) })
    };
    let encap = !(ver == 0x11 && has(MUT_AUTH) && !has(ENCAP));
    let provisioning = ver < 0x12
        || (!(!has(CERT) && has(ALIAS | SET_CERT)) && !(has(CSR) && !has(SET_CERT)) && !(has(RESET) && !has(CSR | SET_CERT)));
    measurement && identity && encap && provisioning
}

/// Reading a CAPABILITIES message of one kind under one version.
macro_rules! caps_read {
    ($T:ident, $ver:ident, $size:expr, $at:expr, $defined:expr, $legal:ident) => {{
        ctx!(c);
        let v = SpdmVersion::$ver;
        c.negotiate_info.spdm_version_sel = v;
        let buf: [u8; 20] = nd::any();
        let len: usize = nd::any();
        nd::assume(len <= 20);
        let mut r = Reader::init(&buf[..len]);
        let p = $T::spdm_read(c, &mut r);
        let (size, at): (usize, usize) = ($size, $at);
        let flags = if at == 0 { 0 } else { le32(&buf[at + 4..at + 8]) & $defined };
        let ver = v.get_u8();
        let (mut dts, mut max) = (0, 0);
        if ver == 0x12 {
            dts = le32(&buf[10..14]);
            max = le32(&buf[14..18]);
        }
        let sizes = ver != 0x12 || (dts >= 42 && max >= dts);
        let ok = len >= size && sizes && (at == 0 || $legal(flags, ver));
        assert!(p.is_some() == ok, "accepted exactly when complete and legal");
        cover!(p.is_some(), "accepted");
        cover!(p.is_none(), "refused");
        if let Some(p) = p {
            assert!(r.used() == size, "size");
            assert!(p.flags.bits() == flags, "flags");
            assert!(p.ct_exponent == if at == 0 { 0 } else { buf[at + 1] }, "timeout exponent");
            assert!(p.data_transfer_size == dts && p.max_spdm_msg_size == max, "buffer sizes");
        }
    }};
}
/// Writing one: layout, and refusal when it does not fit.
macro_rules! caps_write {
    ($T:ident, $F:ident, $ver:ident, $size:expr, $at:expr) => {{
        ctx!(c);
        let v = SpdmVersion::$ver;
        c.negotiate_info.spdm_version_sel = v;
        let p = $T {
            ct_exponent: nd::any(),
            flags: $F::from_bits_truncate(nd::any()),
            data_transfer_size: nd::any(),
            max_spdm_msg_size: nd::any(),
        };
        let mut buf = [0xEEu8; 20];
        let (size, at): (usize, usize) = ($size, $at);
        let cap: usize = nd::any();
        nd::assume(cap <= 20);
        let mut w = Writer::init(&mut buf[..cap]);
        let n = p.spdm_encode(c, &mut w);
        assert!(n.is_ok() == (cap >= size), "refused exactly when it does not fit");
        if let Ok(n) = n {
            assert!(n == size && w.used() == size, "size");
            let mut want = [0xEEu8; 20];
            want[0] = 0;
            want[1] = 0;
            if at != 0 {
                want[at] = 0;
                want[at + 1] = p.ct_exponent;
                want[at + 2] = 0;
                want[at + 3] = 0;
                want[at + 4..at + 8].copy_from_slice(&p.flags.bits().to_le_bytes());
            }
            if v.get_u8() == 0x12 {
                want[10..14].copy_from_slice(&p.data_transfer_size.to_le_bytes());
                want[14..18].copy_from_slice(&p.max_spdm_msg_size.to_le_bytes());
            }
            assert!(buf == want, "layout");
        }
        cover!(cap >= size, "fits");
    }};
}

harnesses! {
    /// VERSION is accepted exactly when it lists one to three versions and all of them are there.
    /// @fns: SpdmVersionResponsePayload::spdm_read, SpdmVersionStruct::read
    /// @cfg: small
    #[unwind(5)]
    fn version_read() {
        ctx!(c);
        let buf: [u8; 12] = nd::any();
        let len: usize = nd::any();
        nd::assume(len <= 12);
        let mut r = Reader::init(&buf[..len]);
        let v = SpdmVersionResponsePayload::spdm_read(c, &mut r);
        let n = buf[3] as usize;
        let ok = len >= 4 && n >= 1 && n <= 3 && len >= 4 + 2 * n;
        assert!(v.is_some() == ok, "accepted exactly when legal and complete");
        cover!(v.is_some(), "accepted");
        if let Some(v) = v {
            assert!(r.used() == 4 + 2 * n && v.version_number_entry_count == buf[3], "size");
            for i in 0..3 {
                if i < n {
                    assert!(v.versions[i].update == buf[4 + 2 * i] && v.versions[i].version.get_u8() == buf[5 + 2 * i], "entry");
                }
            }
        }
    }
    /// @fns: SpdmVersionResponsePayload::spdm_encode, SpdmVersionStruct::encode
    /// @cfg: small
    #[unwind(5)]
    fn version_write() {
        ctx!(c);
        let e: [[u8; 2]; 3] = nd::any();
        let n: u8 = nd::any();
        nd::assume(n <= 3);
        let s = |i: usize| SpdmVersionStruct { update: e[i][0], version: SpdmVersion::read_bytes(&e[i][1..]).unwrap() };
        let p = SpdmVersionResponsePayload { version_number_entry_count: n, versions: [s(0), s(1), s(2)] };
        let mut buf = [0xEEu8; 12];
        let cap: usize = nd::any();
        nd::assume(cap <= 12);
        let mut w = Writer::init(&mut buf[..cap]);
        let r = p.spdm_encode(c, &mut w);
        let size = 4 + 2 * n as usize;
        assert!(r.is_ok() == (cap >= size), "refused exactly when it does not fit");
        if let Ok(k) = r {
            assert!(k == size && w.used() == size, "size");
            assert!(buf[..4] == [0, 0, 0, n], "header");
            for i in 0..3 {
                let want = if i < n as usize { e[i] } else { [0xEE; 2] };
                assert!(buf[4 + 2 * i..6 + 2 * i] == want, "entries");
            }
        }
        cover!(cap >= size && n == 3, "fits");
    }
    /// @fns: SpdmGetVersionRequestPayload::spdm_read, SpdmGetVersionRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(5)]
    fn get_version() {
        ctx!(c);
        let buf: [u8; 3] = nd::any();
        let len: usize = nd::any();
        nd::assume(len <= 3);
        let mut r = Reader::init(&buf[..len]);
        let v = SpdmGetVersionRequestPayload::spdm_read(c, &mut r);
        assert!(v.is_some() == (len >= 2), "accepted exactly when complete");
        let mut out = [0xEEu8; 3];
        let mut w = Writer::init(&mut out[..len]);
        let k = SpdmGetVersionRequestPayload {}.spdm_encode(c, &mut w);
        assert!(k == if len >= 2 { Ok(2) } else { Err(SPDM_STATUS_BUFFER_FULL) }, "two bytes, or refused");
        assert!(len < 2 || out == [0, 0, 0xEE], "zero parameters");
        cover!(len == 3, "longer");
    }
    /// The two-byte message header: version and code, any value.
    /// @fns: SpdmMessageHeader::read, SpdmMessageHeader::encode
    /// @cfg: small
    #[unwind(5)]
    fn header() {
        let buf: [u8; 3] = nd::any();
        let len: usize = nd::any();
        nd::assume(len <= 3);
        let mut r = Reader::init(&buf[..len]);
        let v = SpdmMessageHeader::read(&mut r);
        assert!(v.is_some() == (len >= 2), "accepted exactly when complete");
        if let Some(h) = v {
            assert!(r.used() == 2 && h.version.get_u8() == buf[0] && h.request_response_code.get_u8() == buf[1], "fields");
            let mut out = [0xEEu8; 3];
            let mut w = Writer::init(&mut out);
            assert!(h.encode(&mut w) == Ok(2) && w.used() == 2, "size");
            assert!(out == [buf[0], buf[1], 0xEE], "round trip");
        }
        cover!(len == 3, "longer");
    }
    /// @fns: SpdmGetCapabilitiesRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(5)]
    fn get_caps_read_10() { caps_read!(SpdmGetCapabilitiesRequestPayload, SpdmVersion10, 2, 0, 0, req_legal) }
    /// @fns: SpdmGetCapabilitiesRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(5)]
    fn get_caps_read_11() { caps_read!(SpdmGetCapabilitiesRequestPayload, SpdmVersion11, 10, 2, REQ_DEFINED, req_legal) }
    /// @fns: SpdmGetCapabilitiesRequestPayload::spdm_read
    /// @cfg: small
    #[unwind(5)]
    fn get_caps_read_12() { caps_read!(SpdmGetCapabilitiesRequestPayload, SpdmVersion12, 18, 2, REQ_DEFINED, req_legal) }
    /// @fns: SpdmCapabilitiesResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(5)]
    fn caps_read_10() { caps_read!(SpdmCapabilitiesResponsePayload, SpdmVersion10, 10, 2, RSP_DEFINED, rsp_legal) }
    /// @fns: SpdmCapabilitiesResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(5)]
    fn caps_read_11() { caps_read!(SpdmCapabilitiesResponsePayload, SpdmVersion11, 10, 2, RSP_DEFINED, rsp_legal) }
    /// @fns: SpdmCapabilitiesResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(5)]
    fn caps_read_12() { caps_read!(SpdmCapabilitiesResponsePayload, SpdmVersion12, 18, 2, RSP_DEFINED, rsp_legal) }
    /// @fns: SpdmGetCapabilitiesRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(21)]
    fn get_caps_write_10() { caps_write!(SpdmGetCapabilitiesRequestPayload, SpdmRequestCapabilityFlags, SpdmVersion10, 2, 0) }
    /// @fns: SpdmGetCapabilitiesRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(21)]
    fn get_caps_write_11() { caps_write!(SpdmGetCapabilitiesRequestPayload, SpdmRequestCapabilityFlags, SpdmVersion11, 10, 2) }
    /// @fns: SpdmGetCapabilitiesRequestPayload::spdm_encode
    /// @cfg: small
    #[unwind(21)]
    fn get_caps_write_12() { caps_write!(SpdmGetCapabilitiesRequestPayload, SpdmRequestCapabilityFlags, SpdmVersion12, 18, 2) }
    /// @fns: SpdmCapabilitiesResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(21)]
    fn caps_write_11() { caps_write!(SpdmCapabilitiesResponsePayload, SpdmResponseCapabilityFlags, SpdmVersion11, 10, 2) }
    /// @fns: SpdmCapabilitiesResponsePayload::spdm_encode
    /// @cfg: small
    #[unwind(21)]
    fn caps_write_12() { caps_write!(SpdmCapabilitiesResponsePayload, SpdmResponseCapabilityFlags, SpdmVersion12, 18, 2) }
}
