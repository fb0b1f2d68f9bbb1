//! P16: a responder's certificates.
//! @level proof
//! @assume hash and certificate parsing are assumed primitives, recorded; transcripts and sending are taken by contract (P11, P14)
use crate::{cx::*, nd, rec::*, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const ID: u32 = 0xfffc_fffc;
const INVALID: u8 = 1;
const UNEXPECTED: u8 = 4;
const UNSPECIFIED: u8 = 5;
const MISMATCH: u8 = 0x41;
const ALGO: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
fn conn(n: u8) -> SpdmConnectionState {
    SpdmConnectionState::read_bytes(&[n]).unwrap()
}
fn chain<const N: usize>(b: &[u8; N]) -> Option<SpdmCertChainBuffer> {
    let mut c = SpdmCertChainBuffer::default();
    c.data_size = N as u16;
    c.data[..N].copy_from_slice(b);
    Some(c)
}
macro_rules! responder {
    ($r:ident, $n:ident) => { responder!($r, $n = nd::any()); nd::assume($n <= 6); };
    ($r:ident, $n:ident = $state:expr) => {
        rctx!($r);
        install_hash();
        let $n: u8 = $state;
        $r.common.runtime_info.set_connection_state(conn($n));
        $r.common.negotiate_info.spdm_version_sel = SpdmVersion::SpdmVersion12;
        $r.common.negotiate_info.base_hash_sel = ALGO;
    };
}
/// Requests refused before anything is looked at.
macro_rules! refused {
    ($len:literal, $code:literal, $session:expr, $handle:expr) => {{
        responder!(r, n);
        let mut m: [u8; $len] = nd::any();
        if $len > 1 {
            m[1] = $code;
        }
        nd::assume($len < 2 || n < 3 || m[0] != 0x12 && m[0] <= 0x12);
        let s: Option<u32> = $session;
        let f: fn(&mut ResponderContext, &[u8], Option<u32>) -> SpdmResult = $handle;
        let ok = f(r, &m, s).is_ok();
        let code = if n < 3 { UNEXPECTED } else if $len < 2 { INVALID } else { MISMATCH };
        assert!(called() == 1 && sent_error(0, s, 0x12, code) && ok == call(0).ok, "one ERROR alone, its outcome reported");
        cover!(n >= 3, "refused");
    }};
}
macro_rules! digests {
    ($mask:literal, $n:literal, $session:expr) => {{
        responder!(r, n = 4);
        let (a, b): ([u8; 9], [u8; 7]) = (nd::any(), nd::any());
        for i in 0..8 {
            if $mask & 1 << i != 0 {
                r.common.provision_info.my_cert_chain[i] = if i == 0 { chain(&a) } else { chain(&b) };
            }
        }
        let s: Option<u32> = $session;
        let p: [u8; 4] = nd::any();
        let m = [0x12, 0x81, p[0], p[1], p[2], p[3]];
        // once with padding behind the request
        let ok = r.handle_spdm_digest(&m[..if $mask == 1 { 6 } else { 4 }], s).is_ok();
        let k = if s.is_none() { 3 } else { 1 };
        assert!(call(0).what == RESET_VIA && call(0).arg == 0x81 && call(0).session == s, "transcripts end");
        // the hash of each chain provisioned, in slot order
        assert!(unsafe { HASH_N } == $n, "one hash per slot");
        let mut j = 0;
        for i in 0..8 {
            if $mask & 1 << i != 0 {
                let h = hash_log(j);
                let c: &[u8] = if i == 0 { &a } else { &b };
                assert!(h.op == Op::All && h.arg == ALGO.bits() as usize && h.len == c.len() && h.probe == probe(c), "the whole chain, under the negotiated hash");
                j += 1;
            }
        }
        let f = |p: usize| if p < 4 { [0x12, 1, 0, $mask][p] } else { bytes_of(digest_tag(0x1000 + (p - 4) / 32))[(p - 4) % 32] };
        let len = 4 + 32 * $n;
        assert!(is_bytes(k, SENT, s, len, f) && call(k).arg == 0 && call(k).ok == ok && called() == k + 1, "DIGESTS is sent once");
        if s.is_none() {
            assert!(is_call(nth(APPEND_B, 0), APPEND_B, None, &m[..4]) && is_bytes(nth(APPEND_B, 1), APPEND_B, None, len, f), "transcript of request and response");
        }
        cover!(true, "done");
    }};
}
const CHAIN_LEN: usize = 6;
macro_rules! certificate {
    ($slot:literal, $session:expr, $len:literal, $provisioned:literal, $(($offset:literal, $length:literal)),*) => {{
        responder!(r, n = 4);
        let a: [u8; CHAIN_LEN] = nd::any();
        if $provisioned {
            r.common.provision_info.my_cert_chain[0] = chain(&a);
            r.common.provision_info.my_cert_chain[1] = chain(&[1, 2, 3]);
        }
        let s: Option<u32> = $session;
        $(
            let mut m: [u8; 12] = nd::any();
            m[0] = 0x12;
            m[1] = 0x82;
            m[2] = $slot;
            let (offset, length): (usize, usize) = ($offset, $length);
            m[4..6].copy_from_slice(&(offset as u16).to_le_bytes());
            m[6..8].copy_from_slice(&(length as u16).to_le_bytes());
            unsafe { CALL_N = 0 };
            let ok = r.handle_spdm_certificate(&m[..$len], s).is_ok();
            let last = called() - 1;
            assert!(call(0).what == RESET_VIA && call(0).arg == 0x82 && call(0).session == s && call(last).ok == ok, "transcripts end, outcome reported");
            if $len < 8 || $slot != 0 {
                assert!(called() == 2 && sent_error(1, s, 0x12, INVALID), "incomplete, or not a slot");
            } else if !$provisioned || offset > CHAIN_LEN {
                assert!(sent_error(last, s, 0x12, INVALID), "nothing there");
            } else {
                let n = if length > CHAIN_LEN - offset { CHAIN_LEN - offset } else { length };
                let f = |p: usize| match p {
                    0..=3 => [0x12, 2, 0, 0][p],
                    4..=7 => [n as u8, 0, (CHAIN_LEN - offset - n) as u8, 0][p - 4],
                    _ => a[offset + p - 8],
                };
                assert!(is_bytes(last, SENT, s, 8 + n, f) && call(last).arg == 0, "CERTIFICATE with the portion asked for and what remains");
                if s.is_none() {
                    assert!(called() == 4 && is_call(1, APPEND_B, None, &m[..8]) && is_bytes(2, APPEND_B, None, 8 + n, f), "transcript of request and response");
                } else {
                    assert!(called() == 2, "no transcript in a session");
                }
            }
        )*
        cover!(true, "done");
    }};
}
macro_rules! unrecorded {
    ($at:expr, $m:expr, $handle:ident) => {{
        responder!(r, n = 4);
        unsafe { FAIL = $at };
        let a: [u8; CHAIN_LEN] = nd::any();
        r.common.provision_info.my_cert_chain[0] = chain(&a);
        let ok = r.$handle(&$m, None).is_ok();
        let last = only(SENT);
        assert!(last == called() - 1 && sent_error(last, None, 0x12, UNSPECIFIED) && ok == call(last).ok, "ERROR alone");
        cover!(true, "done");
    }};
}
/// The chain of each slot provisioned: length, root certificate hash, certificates.
macro_rules! construct {
    ($size:literal, $hash:literal) => {{
        install_hash();
        install_certs();
        ctx!(c);
        unsafe {
            HASH_SIZE = $hash;
            ROOT_AT = (2, 5);
        }
        c.negotiate_info.base_hash_sel = ALGO;
        let (a, old): ([u8; $size], [u8; 6]) = (nd::any(), nd::any());
        let mut d = SpdmCertChainData::default();
        d.data_size = $size;
        d.data[..$size].copy_from_slice(&a);
        c.provision_info.my_cert_chain_data[0] = Some(d.clone());
        c.provision_info.my_cert_chain_data[3] = Some(d.clone());
        c.provision_info.my_cert_chain[3] = chain(&old);
        c.provision_info.my_cert_chain[5] = chain(&old);
        assert!(c.construct_my_cert_chain().is_ok(), "constructed");
        assert!(called() == 2 && unsafe { HASH_N } == 2, "once for each slot provisioned");
        for (k, slot) in [(0, 0), (1, 3)] {
            assert!(is_call(k, ROOT, None, &a) && call(k).arg == 0, "the first certificate is the root");
            let h = hash_log(k);
            assert!(h.op == Op::All && h.arg == ALGO.bits() as usize && h.len == 3 && h.probe == probe(&a[2..5]), "its hash under the negotiated algorithm");
            let x = c.provision_info.my_cert_chain[slot].as_ref().unwrap();
            let len = 4 + $hash + $size;
            assert!(x.data_size == len, "length");
            let p: usize = nd::any();
            nd::assume(p < len as usize);
            let want = match p {
                0 => len as u8,
                1..=3 => 0,
                _ if p < 4 + $hash => bytes_of(digest_tag(0x1000 + k))[p - 4],
                _ => a[p - 4 - $hash],
            };
            assert!(x.data[p] == want, "length, root hash, certificates");
        }
        assert!(c.provision_info.my_cert_chain[1].is_none(), "none where none is provisioned");
        cover!(true, "done");
    }};
}
macro_rules! construct_fails {
    ($fail:expr, $hash_fail:literal) => {{
        install_hash();
        install_certs();
        ctx!(c);
        unsafe {
            ROOT_AT = (2, 5);
            FAIL = $fail;
            HASH_FAIL = $hash_fail;
        }
        c.negotiate_info.base_hash_sel = ALGO;
        let mut d = SpdmCertChainData::default();
        d.data_size = 8;
        c.provision_info.my_cert_chain_data[0] = Some(d.clone());
        c.provision_info.my_cert_chain_data[1] = Some(d.clone());
        assert!(c.construct_my_cert_chain().is_err(), "a failure is reported");
        cover!(true, "done");
    }};
}
harnesses! {
    /// @fns: ResponderContext::handle_spdm_digest, ResponderContext::write_spdm_digest_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn digests_gate() { refused!(2, 0x81, None, |r, m, s| r.handle_spdm_digest(m, s)) }
    /// @fns: ResponderContext::handle_spdm_digest
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn digests_gate_session() { refused!(1, 0x81, Some(ID), |r, m, s| r.handle_spdm_digest(m, s)) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmGetCertificateRequestPayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_certificate)]
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_gate() { refused!(2, 0x82, Some(ID), |r, m, s| r.handle_spdm_certificate(m, s)) }
    /// @fns: ResponderContext::handle_spdm_certificate
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_gate_short() { refused!(1, 0x82, None, |r, m, s| r.handle_spdm_certificate(m, s)) }
    /// @fns: ResponderContext::handle_spdm_digest, ResponderContext::write_spdm_digest_response
    /// @cfg: small
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(responses)]
    #[unwind(66)]
    fn digests_one() { digests!(0x01, 1, None) }
    /// @fns: ResponderContext::handle_spdm_digest, ResponderContext::write_spdm_digest_response
    /// @cfg: small
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(responses)]
    #[unwind(66)]
    fn digests_two() { digests!(0x05, 2, None) }
    /// @fns: ResponderContext::handle_spdm_digest, ResponderContext::write_spdm_digest_response
    /// @cfg: small
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(responses)]
    #[unwind(66)]
    fn digests_high_session() { digests!(0x82, 2, Some(ID)) }
    /// @fns: ResponderContext::handle_spdm_digest
    /// @cfg: small
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(responses)]
    #[unwind(66)]
    fn digests_none() { digests!(0, 0, None) }
    /// @fns: ResponderContext::handle_spdm_digest
    /// @cfg: small
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(responses)]
    #[unwind(66)]
    fn digests_request_fails() { unrecorded!((APPEND_B, 0), [0x12, 0x81, 0, 0], handle_spdm_digest) }
    /// @fns: ResponderContext::handle_spdm_digest
    /// @cfg: small
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[stubs(responses)]
    #[unwind(66)]
    fn digests_response_fails() { unrecorded!((APPEND_B, 1), [0x12, 0x81, 0, 0], handle_spdm_digest) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate() { certificate!(0, None, 8, true, (0, 2), (2, 3), (2, 4)) }
    /// A request with padding behind it: what is recorded is the request.
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_padded() { certificate!(0, None, 12, true, (0, 2)) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_end() { certificate!(0, None, 8, true, (4, 0xffff), (6, 5), (3, 0)) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_beyond() { certificate!(0, None, 8, true, (7, 1), (0xffff, 0xffff)) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_session() { certificate!(0, Some(ID), 8, true, (1, 3), (1, 0x106)) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_other_slot() { certificate!(1, None, 8, true, (0, 3)) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_none() { certificate!(0, None, 8, false, (0, 3)) }
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_short() { certificate!(0, None, 7, true, (0, 3)) }
    /// @fns: ResponderContext::handle_spdm_certificate
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_request_fails() { unrecorded!((APPEND_B, 0), [0x12, 0x82, 0, 0, 3, 0, 4, 0], handle_spdm_certificate) }
    /// @fns: ResponderContext::handle_spdm_certificate
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(9)]
    fn certificate_response_fails() { unrecorded!((APPEND_B, 1), [0x12, 0x82, 0, 0, 3, 0, 4, 0], handle_spdm_certificate) }
    /// @fns: SpdmContext::construct_my_cert_chain
    /// @cfg: small
    #[unwind(9)]
    fn construct() { construct!(9, 32) }
    /// The largest chain under the largest hash.
    /// @fns: SpdmContext::construct_my_cert_chain
    /// @cfg: small
    #[unwind(9)]
    fn construct_largest() { construct!(64, 64) }
    /// @fns: SpdmContext::construct_my_cert_chain
    /// @cfg: small
    #[unwind(9)]
    fn construct_parse_fails() { construct_fails!((ROOT, 1), -1) }
    /// @fns: SpdmContext::construct_my_cert_chain
    /// @cfg: small
    #[unwind(9)]
    fn construct_hash_fails() { construct_fails!(NO, 1) }
    /// A portion is at most 512 bytes.
    /// @fns: ResponderContext::handle_spdm_certificate, ResponderContext::write_spdm_certificate_response
    /// @cfg: mid
    #[stubs(responses)]
    #[unwind(514)]
    fn certificate_largest() {
        responder!(r, n = 4);
        let (at, x): (u16, u8) = (nd::any(), nd::any());
        nd::assume(at < 600);
        let mut c = SpdmCertChainBuffer::default();
        c.data_size = 600;
        c.data[at as usize] = x;
        r.common.provision_info.my_cert_chain[0] = Some(c);
        let m = [0x12, 0x82, 0, 0, 1, 0, 0xff, 0x02];
        let ok = r.handle_spdm_certificate(&m, None).is_ok();
        let f = |p: usize| match p {
            0..=3 => [0x12, 2, 0, 0][p],
            4..=7 => [0, 2, 87, 0][p - 4],
            _ => if p - 7 == at as usize { x } else { 0 },
        };
        assert!(is_bytes(3, SENT, None, 8 + 512, f) && called() == 4 && call(3).ok == ok, "512 bytes of the chain, 87 remain");
        cover!(at == 300, "done");
    }
}
