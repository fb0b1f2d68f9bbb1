//! P25: a requester authenticates a responder.
//! @level proof
//! @assume hash, random, signature and certificate providers are assumed primitives, recorded; transcripts, sending and receiving are taken by contract (P11, P12)
use crate::{contracts::*, cx::*, nd, rec::*, spy::*};
use codec::{Codec, Reader, Writer};
use core::mem::ManuallyDrop;
use spdmlib::{common::*, config};
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;

const ID: u32 = 0xfffc_fffd;
const HASH: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_256;
const ASYM: SpdmBaseAsymAlgo = SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P256;
macro_rules! requester {
    ($q:ident, $v:literal) => {
        qctx!($q);
        install_hash();
        let g = &mut $q.common.negotiate_info;
        g.spdm_version_sel = ver($v);
        g.base_hash_sel = HASH;
        g.base_asym_sel = ASYM;
    };
}
/// A chain of `n` bytes, the given ones first.
fn chain(b: &[u8], n: u16) -> SpdmCertChainBuffer {
    let mut c = SpdmCertChainBuffer::default();
    c.data_size = n;
    c.data[..b.len()].copy_from_slice(b);
    c
}
// -------------------------------------------------------------------- digests
macro_rules! digests {
    ($session:expr, $fail:expr) => {{
        requester!(q, 0x12);
        unsafe {
            FAIL = $fail;
            USED = 34;
        }
        let mut m: [u8; 40] = nd::any();
        m[..2].copy_from_slice(&[0x12, 1]);
        ans(m, 40);
        let s: Option<u32> = $session;
        let ok = q.send_receive_spdm_digest(s).is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0x81 && call(0).session == s, "transcripts end");
        assert!(is_bytes(1, SENT, s, 4, |p| [0x12, 0x81, 0, 0][p]) && call(1).arg == 0, "GET_DIGESTS");
        if $fail == NO {
            assert!(ok && call(2).what == RECEIVED && call(2).session == s && call(2).arg == 0, "answered in the same place");
            if s.is_none() {
                assert!(called() == 5 && is_bytes(3, APPEND_B, None, 4, |p| [0x12, 0x81, 0, 0][p]) && is_ans(4, APPEND_B, None, 36), "transcript of request and response");
            } else {
                assert!(called() == 3, "no transcript in a session");
            }
        } else {
            assert!(!ok && (times(APPEND_B) == 0 || $fail.0 == APPEND_B), "failure reported");
        }
        cover!(true, "done");
    }};
}
/// Anything but a well formed answer: nothing is recorded.
macro_rules! other {
    ($len:literal, $code:literal, $f:expr) => {{
        requester!(q, 0x12);
        install_random();
        let m: [u8; 4] = nd::any();
        ans(m, $len);
        let f: fn(&mut RequesterContext) -> SpdmResult = $f;
        let e = f(q).err();
        assert!(times(APPEND_B) == 0 && times(APPEND_C) == 0 && times(APPEND_M) == 0 && times(SENT) == 1 && times(RECEIVED) == 1, "asked once, nothing recorded");
        assert!(e.is_some(), "an error");
        if $len > 1 {
            assert!(m[0] == 0x12 || e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "of another version");
            assert!(m[0] != 0x12 || m[1] != $code || e == Some(SPDM_STATUS_INVALID_MSG_FIELD), "incomplete");
            assert!(m[0] != 0x12 || m[1] == $code || m[1] == 0x7F || e == Some(SPDM_STATUS_ERROR_PEER), "of another kind");
            assert!(m[0] != 0x12 || m[1] != 0x7F || m[2] != 3 || e == Some(SPDM_STATUS_BUSY_PEER), "busy");
        }
        cover!(true, "done");
    }};
}
macro_rules! digests_read {
    ($n:literal, $cut:literal) => {{
        requester!(q, 0x12);
        const N: usize = 2 + 32 * $n;
        let m: [u8; N] = nd::any();
        nd::assume(m[1].count_ones() == $n);
        let d = ManuallyDrop::new(SpdmDigestsResponsePayload::spdm_read(&mut q.common, &mut Reader::init(&m[..N - $cut])));
        assert!(d.is_some() == ($cut == 0), "exactly the complete responses");
        if let Some(d) = &*d {
            assert!(d.slot_mask == m[1], "slots");
            let p = unsafe { PROBE };
            assert!(p >= 32 * $n || d.digests[p / 32].data_size == 32 && d.digests[p / 32].data[p % 32] == m[2 + p], "a digest for each, in order");
        }
        cover!(d.is_some() == ($cut == 0), "read");
    }};
}
// --------------------------------------------------------------- certificates
fn partial(q: &mut RequesterContext, s: Option<u32>, slot: u8, total: u16, offset: u16, length: u16) -> SpdmResult<(u16, u16)> {
    unsafe { q.handle_spdm_certificate_partial_response(s, slot, total, offset, length, &[0x12, 0x82, slot, 0, 9, 8, 7, 6], &ANS[..ANS_LEN]) }
}
/// A portion that fits is kept, at its place; the rest of the chain stays.
macro_rules! portion {
    ($session:expr, $offset:literal, $n:literal) => {{
        requester!(q, 0x12);
        let slot: u8 = nd::any();
        let (total, length, rest): (u16, u16, u16) = (nd::any(), nd::any(), nd::any());
        let max = config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16;
        nd::assume(slot < 8 && length >= $n && rest < max - $offset - $n && (total == 0 || total == $offset + $n + rest));
        nd::assume($n != 0 || rest == 0);
        unsafe {
            USED = 6 + $n;
            CERT = (slot, $n, rest);
            CERT_DATA = nd::any();
        }
        let mut m: [u8; 32] = nd::any();
        m[..2].copy_from_slice(&[0x12, 2]);
        ans(m, 12 + $n);
        let before: [u8; 32] = nd::any();
        q.common.peer_info.peer_cert_chain_temp = Some(chain(&before, nd::any()));
        let s: Option<u32> = $session;
        let r = partial(q, s, slot, total, $offset, length);
        assert!(r == Ok(($n, rest)), "what was sent and what remains");
        let t = q.common.peer_info.peer_cert_chain_temp.as_ref().unwrap();
        assert!(t.data_size == $offset + $n, "size so far");
        let p = unsafe { PROBE };
        assert!(p >= 32 || t.data[p] == if p >= $offset && p < $offset + $n { unsafe { CERT_DATA[p - $offset] } } else { before[p] }, "the portion in its place");
        if s.is_none() {
            assert!(called() == 2 && is_bytes(0, APPEND_B, None, 8, |p| [0x12, 0x82, slot, 0, 9, 8, 7, 6][p]) && is_ans(1, APPEND_B, None, 8 + $n), "transcript of request and response");
        } else {
            assert!(called() == 0, "no transcript in a session");
        }
        cover!(true, "kept");
    }};
}
/// A portion that does not fit what was asked for, the room or what is known of the chain: refused.
macro_rules! misfit {
    ($offset:literal, $n:literal) => {{
        requester!(q, 0x12);
        let slot: u8 = nd::any();
        let (total, length, rest): (u16, u16, u16) = (nd::any(), nd::any(), nd::any());
        let theirs: u8 = nd::any();
        let max = config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u32;
        nd::assume(slot < 8);
        let (total_, length_, rest_) = (total as u32, length as u32, rest as u32);
        let sum = $offset + $n + rest_;
        nd::assume(theirs != slot || length_ < $n || sum >= max || total_ != 0 && total_ != sum || $n == 0 && rest_ != 0);
        unsafe {
            USED = 6 + $n;
            CERT = (theirs, $n, rest);
        }
        let mut m: [u8; 32] = nd::any();
        m[..2].copy_from_slice(&[0x12, 2]);
        ans(m, 8 + if $n < 16 { $n } else { 16 });
        unsafe { USED = ANS_LEN - 2 };
        let before: u8 = nd::any();
        q.common.peer_info.peer_cert_chain_temp = Some(chain(&[before], $offset));
        let r = partial(q, None, slot, total, $offset, length);
        assert!(r == Err(SPDM_STATUS_INVALID_MSG_FIELD) && called() == 0, "refused, nothing recorded");
        let t = q.common.peer_info.peer_cert_chain_temp.as_ref().unwrap();
        assert!(t.data_size == $offset && t.data[0] == before, "nothing kept");
        cover!(theirs == slot, "refused");
    }};
}
/// The portions a responder sends: how many bytes, how many remain.
static mut PORTIONS: [(u16, u16); 4] = [(0, 0); 4];
const PARTIAL: u8 = 8;
const CHAIN_OK: u8 = 9;
impl<'a> H<'a> {
    /// `send_receive_spdm_certificate_partial`, exchanging one portion (its parts discharged here).
    pub fn cert_partial(_c: &mut RequesterContext<'a>, s: Option<u32>, slot: u8, total: u16, offset: u16, length: u16) -> SpdmResult<(u16, u16)> {
        let i = times(PARTIAL);
        appended_by(PARTIAL, s, &[slot, offset as u8, length as u8, (length >> 8) as u8], total as usize)?;
        assert!(offset < 256 && i < 4, "bounded");
        if let Some(t) = &mut _c.common.peer_info.peer_cert_chain_temp {
            t.data_size = offset + unsafe { PORTIONS[i].0 };
        }
        Ok(unsafe { PORTIONS[i] })
    }
    pub fn cert_verify(_c: &mut RequesterContext<'a>) -> SpdmResult {
        appended(CHAIN_OK, None, &[])
    }
}
macro_rules! retrieve {
    ($session:expr, $slot:literal, $fail:expr, $($n:literal),*) => {{
        requester!(q, 0x12);
        let total = 0 $(+ $n)*;
        let (mut at, mut i) = (0u16, 0);
        unsafe {
            FAIL = $fail;
            $( at += $n; PORTIONS[i] = ($n, total - at); i += 1; )*
        }
        let old: u8 = nd::any();
        q.common.peer_info.peer_cert_chain[$slot] = Some(chain(&[old], 1));
        q.common.peer_info.peer_cert_chain[2] = Some(chain(&[old], 2));
        let s: Option<u32> = $session;
        let ok = q.send_receive_spdm_certificate(s, $slot).is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0x82 && call(0).session == s, "transcripts end");
        let stored = q.common.peer_info.peer_cert_chain[$slot].as_ref().unwrap();
        assert!(q.common.peer_info.peer_cert_chain[2].as_ref().unwrap().data_size == 2, "other slots as they were");
        if $fail.0 != PARTIAL {
            let (mut at, mut j) = (0u16, 0);
            $(
                let left = total - at;
                let want: u16 = if j == 0 || left > 512 { 512 } else { left };
                assert!(is_bytes(1 + j, PARTIAL, s, 4, |p| [$slot, at as u8, want as u8, (want >> 8) as u8][p]) && call(1 + j).arg == if j == 0 { 0 } else { total as usize }, "the next portion, of what remains");
                at += $n;
                j += 1;
            )*
            assert!(times(CHAIN_OK) == (total != 0) as usize && called() == 1 + j + (total != 0) as usize, "the whole chain is verified, once");
            assert!(ok == (total != 0 && $fail == NO), "accepted exactly when verified");
            assert!(stored.data_size == if ok { total } else { 1 }, "kept exactly when accepted");
            assert!(q.common.peer_info.peer_cert_chain_temp.is_none(), "nothing half done stays");
        } else {
            assert!(!ok && times(CHAIN_OK) == 0 && stored.data_size == 1, "nothing accepted");
        }
        cover!(true, "done");
    }};
}
/// A chain of `$n` bytes, `$root` of them the root certificate.
macro_rules! verify {
    ($n:literal, $root:literal, $own:expr, $fail:expr, $hash:literal) => {{
        requester!(q, 0x12);
        install_certs();
        unsafe {
            FAIL = $fail;
            HASH_FAIL = $hash;
            ROOT_AT = (2, 2 + $root);
        }
        let m: [u8; $n] = nd::any();
        q.common.peer_info.peer_cert_chain_temp = Some(chain(&m, $n));
        let own: Option<([u8; 6], u16)> = $own;
        if let Some((d, n)) = own {
            let mut c = SpdmCertChainData { data_size: n, data: [0; config::MAX_SPDM_CERT_CHAIN_DATA_SIZE] };
            c.data[..6].copy_from_slice(&d);
            q.common.provision_info.peer_root_cert_data = Some(c);
        }
        let ok = q.verify_spdm_certificate_chain().is_ok();
        let sized = le16(&m[..2]) == $n;
        if !sized {
            assert!(!ok && called() == 0 && unsafe { HASH_N } == 0, "of another length: refused");
        } else {
            assert!(is_bytes(0, CHECK_CHAIN, None, $n - 36, |p| m[36 + p]), "every certificate is verified");
            let mut good = $fail == NO && $hash == NONE;
            if $fail.0 != CHECK_CHAIN {
                assert!(is_bytes(1, ROOT, None, $n - 36, |p| m[36 + p]) && call(1).arg == 0, "the first certificate is the root");
                if $fail == NO {
                    let h = hash_log(0);
                    assert!(h.op == Op::All && h.arg == HASH.bits() as usize && h.len == $root && h.probe == probe(&m[38..38 + $root]), "hashed whole");
                    good = good && m[4..36] == bytes_of(digest_tag(0x1000))[..32];
                    if let Some((d, n)) = own {
                        good = good && n == $root && m[38..38 + $root] == d[..$root];
                    }
                }
            }
            assert!(ok == good, "accepted exactly when all verify, the root hash matches, and the root is the one provisioned");
        }
        cover!(ok || $fail != NO || $hash != NONE, "accepted");
        cover!(!ok, "refused");
    }};
}
/// Another root is provisioned, of another length: never accepted.
macro_rules! verify_refused {
    ($n:literal, $root:literal, $own:expr) => {{
        requester!(q, 0x12);
        install_certs();
        unsafe { ROOT_AT = (2, 2 + $root) };
        let m: [u8; $n] = nd::any();
        q.common.peer_info.peer_cert_chain_temp = Some(chain(&m, $n));
        let (d, n): ([u8; 6], u16) = $own;
        let mut c = SpdmCertChainData { data_size: n, data: [0; config::MAX_SPDM_CERT_CHAIN_DATA_SIZE] };
        c.data[..6].copy_from_slice(&d);
        q.common.provision_info.peer_root_cert_data = Some(c);
        assert!(q.verify_spdm_certificate_chain().is_err(), "refused");
        cover!(called() == 2, "up to the root");
    }};
}
// ------------------------------------------------------------------ challenge
macro_rules! challenge {
    ($v:literal, $slot:literal, $kind:literal, $fail:expr, $hash:literal) => {{
        requester!(q, $v);
        install_random();
        install_verify();
        q.common.runtime_info.digest_context_m1m2 = spdmlib::crypto::hash::hash_ctx_init(HASH);
        unsafe {
            FAIL = $fail;
            HASH_FAIL = $hash;
            USED = 102;
        }
        let c: [u8; 41] = nd::any();
        q.common.peer_info.peer_cert_chain[$slot] = Some(chain(&c, 41));
        q.common.runtime_info.need_measurement_summary_hash = nd::any();
        let mut m: [u8; 108] = nd::any();
        m[..2].copy_from_slice(&[$v, 3]);
        ans(m, 108);
        let kind = SpdmMeasurementSummaryHashType::read_bytes(&[$kind]).unwrap();
        let ok = q.send_receive_spdm_challenge($slot, kind).is_ok();
        assert!(call(0).what == RESET_VIA && call(0).arg == 0x83 && call(0).session == None, "transcripts end");
        assert!(call(1).what == RAND && call(1).len == 32, "a random nonce of 32 bytes");
        let f = |p: usize| if p < 4 { [$v, 0x83, $slot, $kind][p] } else { unsafe { RND[p - 4] } };
        if $fail != (RAND, 0) {
            assert!(is_bytes(2, SENT, None, 36, f), "CHALLENGE");
        }
        if $fail == NO || $fail.0 == VERIFY {
            assert!(call(3).what == RECEIVED && call(3).session == None && call(3).arg == 1, "there is time for the signature");
            assert!(q.common.runtime_info.need_measurement_summary_hash == ($kind != 0), "a summary is read exactly if asked for");
            assert!(is_bytes(4, APPEND_C, None, 36, f) && is_ans(5, APPEND_C, None, 40), "transcript of request and response up to the signature");
            let (d, e) = (hash_log(1), hash_log(2));
            assert!(d.op == Op::Dup && d.arg == 1, "transcript hash, of a copy");
            assert!(times(RESET_B) == 1 && times(RESET_C) == 1 && only(RESET_B) > 5 && only(RESET_C) > 5, "the transcript ends");
            assert!(ok == ($fail == NO && $hash == NONE && $v >= 0x12), "accepted exactly when the signature verifies");
            if $hash == NONE && $v >= 0x12 {
                assert!(e.op == Op::Final && e.ctx == d.ctx, "of the whole transcript");
                assert!(is_bytes(6, VERIFY, None, 132, |p| signed(p, b"\0\0\0\0responder-challenge_auth signing", digest_tag(d.ctx))), "signed for this purpose");
                assert!(call(6).arg == (HASH.bits() << 16 | ASYM.bits()) as usize, "with the negotiated algorithms");
                assert!(unsafe { VERIFY_KEY } == (5, probe(&c[36..])), "by the certificates retrieved from this slot");
                assert!(unsafe { VERIFY_SIG.0 == 64 && (PROBE >= 64 || VERIFY_SIG.1 == m[40 + PROBE]) }, "this signature");
            } else {
                assert!(times(VERIFY) == 0, "nothing verified");
            }
        } else {
            assert!(!ok && times(VERIFY) == 0, "failure reported");
        }
        cover!(true, "done");
    }};
}
/// CHALLENGE_AUTH with a summary or without, opaque data of `$o` bytes.
macro_rules! challenge_read {
    ($sum:literal, $o:literal, $cut:literal) => {{
        requester!(q, 0x12);
        q.common.runtime_info.need_measurement_summary_hash = $sum;
        const S: usize = 66 + if $sum { 32 } else { 0 };
        const N: usize = S + 2 + $o + 64;
        let mut m: [u8; N] = nd::any();
        (m[S], m[S + 1]) = ($o, 0);
        let d = ManuallyDrop::new(SpdmChallengeAuthResponsePayload::spdm_read(&mut q.common, &mut Reader::init(&m[..N - $cut])));
        assert!(d.is_some() == ($cut == 0 && m[0] & 0x70 == 0), "exactly the complete responses");
        if let Some(d) = &*d {
            let same = |a: &[u8], b: &[u8]| probe(a) == probe(b) && a.len() == b.len();
            assert!(d.slot_id == m[0] & 15 && d.challenge_auth_attribute.bits() == m[0] & 0x80 && d.slot_mask == m[1], "parameters");
            assert!(d.cert_chain_hash.data_size == 32 && same(&d.cert_chain_hash.data[..32], &m[2..34]), "hash of the chain");
            assert!(same(&d.nonce.data, &m[34..66]), "nonce");
            assert!(!$sum || d.measurement_summary_hash.data_size == 32 && same(&d.measurement_summary_hash.data[..S - 66], &m[66..S]), "summary");
            assert!(d.opaque.data_size == $o && same(&d.opaque.data[..$o], &m[S + 2..S + 2 + $o]), "opaque data");
            assert!(d.signature.data_size == 64 && same(&d.signature.data[..64], &m[N - 64..]), "signature");
        }
        cover!(d.is_some() || $cut != 0, "read");
    }};
}
macro_rules! certificate_read {
    ($n:literal, $cut:literal) => {{
        requester!(q, 0x12);
        const N: usize = 6 + $n;
        let mut m: [u8; N] = nd::any();
        (m[2], m[3]) = ($n, 0);
        let d = SpdmCertificateResponsePayload::spdm_read(&mut q.common, &mut Reader::init(&m[..N - $cut]));
        assert!(d.is_some() == ($cut == 0), "exactly the complete responses");
        if let Some(d) = &d {
            assert!(d.slot_id == m[0] && d.portion_length == $n && d.remainder_length == le16(&m[4..6]), "parameters");
            let p = unsafe { PROBE };
            assert!(p >= $n || d.cert_chain[p] == m[6 + p], "the portion");
        }
        cover!(d.is_some() || $cut != 0, "read");
    }};
}
harnesses! {
    /// GET_DIGESTS.
    /// @fns: send_receive_spdm_digest, encode_spdm_digest, handle_spdm_digest_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmDigestsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::digests_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn digests() { digests!(None, NO) }
    /// GET_DIGESTS in a session.
    /// @fns: send_receive_spdm_digest, encode_spdm_digest, handle_spdm_digest_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmDigestsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::digests_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn digests_session() { digests!(Some(ID), NO) }
    /// The request is not sent.
    /// @fns: send_receive_spdm_digest
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmDigestsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::digests_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn digests_unsent() { digests!(Some(ID), (SENT, 0)) }
    /// The response cannot be recorded.
    /// @fns: send_receive_spdm_digest, handle_spdm_digest_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmDigestsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::digests_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn digests_unrecorded() { digests!(None, (APPEND_B, 1)) }
    /// Any other answer to GET_DIGESTS.
    /// @fns: send_receive_spdm_digest, handle_spdm_digest_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmDigestsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_digests_rsp)]
    #[stubs(requests)]
    #[unwind(70)]
    fn digests_other() { other!(4, 1, |q| q.send_receive_spdm_digest(None)) }
    /// No answer to speak of.
    /// @fns: handle_spdm_digest_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmDigestsResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_digests_rsp)]
    #[stubs(requests)]
    #[unwind(70)]
    fn digests_short() { other!(1, 1, |q| q.send_receive_spdm_digest(None)) }
    /// DIGESTS, one slot.
    /// @fns: SpdmDigestsResponsePayload::spdm_read
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[unwind(70)]
    fn digests_read_1() { digests_read!(1, 0) }
    /// DIGESTS, two slots, whichever they are.
    /// @fns: SpdmDigestsResponsePayload::spdm_read
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[unwind(70)]
    fn digests_read_2() { digests_read!(2, 0) }
    /// DIGESTS, incomplete.
    /// @fns: SpdmDigestsResponsePayload::spdm_read
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 70
    #[stub(spdmlib::protocol::gen_array_clone, crate::contracts::array_clone)]
    #[unwind(70)]
    fn digests_read_cut() { digests_read!(2, 1) }
    /// The first portion of a chain.
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn portion_first() { portion!(None, 0, 12) }
    /// A later portion.
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn portion_later() { portion!(None, 9, 5) }
    /// A later portion, in a session.
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn portion_session() { portion!(Some(ID), 20, 1) }
    /// An empty chain.
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn portion_empty() { portion!(None, 0, 0) }
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn misfit_first() { misfit!(0, 12) }
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn misfit_later() { misfit!(40, 13) }
    /// No progress although more remains.
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn misfit_empty() { misfit!(3, 0) }
    /// More than there is room for.
    /// @fns: handle_spdm_certificate_partial_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::certificate_rsp_read)]
    #[stubs(requests)]
    #[unwind(70)]
    fn misfit_over() { misfit!(60, 500) }
    /// A chain in one portion.
    /// @fns: send_receive_spdm_certificate
    /// @bound: one portion
    /// @cfg: small
    #[stub(spdmlib::requester::RequesterContext::send_receive_spdm_certificate_partial, crate::rec::H::cert_partial)]
    #[stub(spdmlib::requester::RequesterContext::verify_spdm_certificate_chain, crate::rec::H::cert_verify)]
    #[stubs(requests)]
    #[unwind(10)]
    fn retrieve_1() { retrieve!(None, 0, NO, 60) }
    /// A chain in three portions, the last two short.
    /// @fns: send_receive_spdm_certificate
    /// @bound: three portions
    /// @cfg: small
    #[stub(spdmlib::requester::RequesterContext::send_receive_spdm_certificate_partial, crate::rec::H::cert_partial)]
    #[stub(spdmlib::requester::RequesterContext::verify_spdm_certificate_chain, crate::rec::H::cert_verify)]
    #[stubs(requests)]
    #[unwind(10)]
    fn retrieve_3() { retrieve!(Some(ID), 7, NO, 40, 3, 560) }
    /// No chain at all.
    /// @fns: send_receive_spdm_certificate
    /// @cfg: small
    #[stub(spdmlib::requester::RequesterContext::send_receive_spdm_certificate_partial, crate::rec::H::cert_partial)]
    #[stub(spdmlib::requester::RequesterContext::verify_spdm_certificate_chain, crate::rec::H::cert_verify)]
    #[stubs(requests)]
    #[unwind(10)]
    fn retrieve_none() { retrieve!(None, 1, NO, 0) }
    /// A portion does not come.
    /// @fns: send_receive_spdm_certificate
    /// @cfg: small
    #[stub(spdmlib::requester::RequesterContext::send_receive_spdm_certificate_partial, crate::rec::H::cert_partial)]
    #[stub(spdmlib::requester::RequesterContext::verify_spdm_certificate_chain, crate::rec::H::cert_verify)]
    #[stubs(requests)]
    #[unwind(10)]
    fn retrieve_fails() { retrieve!(None, 0, (PARTIAL, 1), 40, 20) }
    /// The chain does not verify.
    /// @fns: send_receive_spdm_certificate
    /// @cfg: small
    #[stub(spdmlib::requester::RequesterContext::send_receive_spdm_certificate_partial, crate::rec::H::cert_partial)]
    #[stub(spdmlib::requester::RequesterContext::verify_spdm_certificate_chain, crate::rec::H::cert_verify)]
    #[stubs(requests)]
    #[unwind(10)]
    fn retrieve_unverified() { retrieve!(None, 0, (CHAIN_OK, 0), 40, 20) }
    /// A slot that does not exist: nothing is sent.
    /// @fns: send_receive_spdm_certificate
    /// @cfg: small
    #[stubs(requests)]
    #[unwind(10)]
    fn retrieve_slot() {
        requester!(q, 0x12);
        let slot: u8 = nd::any();
        nd::assume(slot >= 8);
        assert!(q.send_receive_spdm_certificate(None, slot).is_err() && called() == 0, "refused");
        cover!(true, "refused");
    }
    /// One portion: the request goes out, its answer comes back.
    /// @fns: send_receive_spdm_certificate_partial, encode_spdm_certificate_partial
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmCertificateResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_certificate_rsp)]
    #[stubs(requests)]
    #[unwind(70)]
    fn certificate_other() { other!(4, 2, |q| q.send_receive_spdm_certificate(None, 0)) }
    /// GET_CERTIFICATE as it is sent.
    /// @fns: encode_spdm_certificate_partial
    /// @cfg: small
    #[unwind(30)]
    fn certificate_request() {
        requester!(q, 0x12);
        let (slot, offset, length): (u8, u16, u16) = (nd::any(), nd::any(), nd::any());
        let mut b = [0u8; 16];
        let n = q.encode_spdm_certificate_partial(slot, offset, length, &mut b);
        assert!(n == Ok(8), "eight bytes");
        assert!(b[..4] == [0x12, 0x82, slot, 0] && le16(&b[4..6]) == offset && le16(&b[6..8]) == length, "GET_CERTIFICATE");
        cover!(true, "done");
    }
    /// CERTIFICATE.
    /// @fns: SpdmCertificateResponsePayload::spdm_read
    /// @bound: portion of 20 bytes
    /// @cfg: small
    #[unwind(30)]
    fn certificate_read_20() { certificate_read!(20, 0) }
    /// CERTIFICATE without a portion.
    /// @fns: SpdmCertificateResponsePayload::spdm_read
    /// @cfg: small
    #[unwind(30)]
    fn certificate_read_0() { certificate_read!(0, 0) }
    /// CERTIFICATE, incomplete.
    /// @fns: SpdmCertificateResponsePayload::spdm_read
    /// @bound: portion of 20 bytes
    /// @cfg: small
    #[unwind(30)]
    fn certificate_read_cut() { certificate_read!(20, 1) }
    /// The chain is verified, no root provisioned.
    /// @fns: verify_spdm_certificate_chain
    /// @bound: chain of 46 bytes
    /// @cfg: small
    #[unwind(70)]
    fn verify_chain() { verify!(46, 6, None, NO, -1) }
    /// A root is provisioned.
    /// @fns: verify_spdm_certificate_chain
    /// @bound: chain of 46 bytes
    /// @cfg: small
    #[unwind(70)]
    fn verify_root() { verify!(46, 6, Some((nd::any(), 6)), NO, -1) }
    /// A longer root is provisioned.
    /// @fns: verify_spdm_certificate_chain
    /// @bound: chain of 46 bytes
    /// @cfg: small
    #[unwind(70)]
    fn verify_root_longer() { verify_refused!(46, 5, (nd::any(), 6)) }
    /// A shorter root is provisioned.
    /// @fns: verify_spdm_certificate_chain
    /// @bound: chain of 46 bytes
    /// @cfg: small
    #[unwind(70)]
    fn verify_root_shorter() { verify_refused!(46, 6, (nd::any(), 5)) }
    /// The chain does not verify.
    /// @fns: verify_spdm_certificate_chain
    /// @bound: chain of 46 bytes
    /// @cfg: small
    #[unwind(70)]
    fn verify_chain_fails() { verify!(46, 6, None, (CHECK_CHAIN, 0), -1) }
    /// There is no root certificate.
    /// @fns: verify_spdm_certificate_chain
    /// @bound: chain of 46 bytes
    /// @cfg: small
    #[unwind(70)]
    fn verify_no_root() { verify!(46, 6, None, (ROOT, 0), -1) }
    /// The root cannot be hashed.
    /// @fns: verify_spdm_certificate_chain
    /// @bound: chain of 46 bytes
    /// @cfg: small
    #[unwind(70)]
    fn verify_unhashed() { verify!(46, 6, None, NO, 0) }
    /// A chain too short to hold a certificate, or none.
    /// @fns: verify_spdm_certificate_chain
    /// @cfg: small
    #[unwind(70)]
    fn verify_short() {
        requester!(q, 0x12);
        install_certs();
        let m: [u8; 36] = nd::any();
        let n: u16 = nd::any();
        nd::assume(n <= 36);
        if nd::any() {
            q.common.peer_info.peer_cert_chain_temp = Some(chain(&m, n));
        }
        assert!(q.verify_spdm_certificate_chain().is_err() && called() == 0, "refused");
        cover!(q.common.peer_info.peer_cert_chain_temp.is_some(), "refused");
    }
    /// CHALLENGE without a summary.
    /// @fns: send_receive_spdm_challenge, encode_spdm_challenge, handle_spdm_challenge_response, verify_challenge_auth_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge() { challenge!(0x12, 0, 0, NO, -1) }
    /// With the summary of the trusted computing base, of another slot.
    /// @fns: send_receive_spdm_challenge, encode_spdm_challenge, handle_spdm_challenge_response, verify_challenge_auth_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_tcb() { challenge!(0x12, 7, 1, NO, -1) }
    /// With the summary of all measurements.
    /// @fns: send_receive_spdm_challenge, encode_spdm_challenge, handle_spdm_challenge_response, verify_challenge_auth_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_all() { challenge!(0x12, 3, 0xff, NO, -1) }
    /// Hashed transcripts cannot be verified before 1.2.
    /// @fns: verify_challenge_auth_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_11() { challenge!(0x11, 0, 0, NO, -1) }
    /// The signature does not verify.
    /// @fns: handle_spdm_challenge_response, verify_challenge_auth_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_forged() { challenge!(0x12, 0, 0, (VERIFY, 0), -1) }
    /// The transcript cannot be hashed.
    /// @fns: handle_spdm_challenge_response, verify_challenge_auth_signature
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_unhashed() { challenge!(0x12, 0, 0, NO, 2) }
    /// No randomness.
    /// @fns: send_receive_spdm_challenge, encode_spdm_challenge
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_predictable() { challenge!(0x12, 0, 0, (RAND, 0), -1) }
    /// The response cannot be recorded.
    /// @fns: handle_spdm_challenge_response
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::contracts::challenge_rsp_read)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_unrecorded() { challenge!(0x12, 0, 0, (APPEND_C, 1), -1) }
    /// Any other answer to CHALLENGE.
    /// @fns: send_receive_spdm_challenge, handle_spdm_challenge_response, spdm_handle_error_response_main
    /// @cfg: small
    #[stub(<spdmlib::message::SpdmChallengeAuthResponsePayload as spdmlib::common::SpdmCodec>::spdm_read, crate::rec::none_challenge_rsp)]
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_other() { other!(4, 3, |q| q.send_receive_spdm_challenge(0, SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone)) }
    /// No chain in that slot, or no such slot: nothing is verified.
    /// @fns: send_receive_spdm_challenge, verify_challenge_auth_signature
    /// @cfg: small
    #[stubs(requests)]
    #[unwind(110)]
    fn challenge_slot() {
        requester!(q, 0x12);
        install_verify();
        q.common.runtime_info.digest_context_m1m2 = spdmlib::crypto::hash::hash_ctx_init(HASH);
        let slot: u8 = nd::any();
        let none = SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone;
        if slot >= 8 {
            assert!(q.send_receive_spdm_challenge(slot, none).is_err() && called() == 0, "refused");
        } else {
            assert!(q.verify_challenge_auth_signature(slot, &SpdmSignatureStruct::default()).is_err() && called() == 0, "refused");
        }
        cover!(true, "refused");
    }
    /// CHALLENGE_AUTH with a summary and opaque data.
    /// @fns: SpdmChallengeAuthResponsePayload::spdm_read
    /// @bound: opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 180
    #[unwind(70)]
    fn challenge_read_summary() { challenge_read!(true, 12, 0) }
    /// CHALLENGE_AUTH without.
    /// @fns: SpdmChallengeAuthResponsePayload::spdm_read
    /// @bound: no opaque data
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 180
    #[unwind(70)]
    fn challenge_read_plain() { challenge_read!(false, 0, 0) }
    /// CHALLENGE_AUTH, incomplete.
    /// @fns: SpdmChallengeAuthResponsePayload::spdm_read
    /// @bound: opaque data of 12 bytes
    /// @cfg: small
    /// @cbmc: --max-field-sensitivity-array-size 180
    #[unwind(70)]
    fn challenge_read_cut() { challenge_read!(true, 12, 1) }
}
