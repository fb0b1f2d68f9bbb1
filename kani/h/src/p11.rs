//! P11: message transcripts.
//! @level proof
//! @assume hash callbacks are context primitives identified by handle; content is compared at one arbitrary position
use crate::{contracts::*, cx::*, nd, spy::*};
use codec::{Codec, Reader, Writer};
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;

const ALGO: SpdmBaseHashAlgo = SpdmBaseHashAlgo::TPM_ALG_SHA_384;
const ID: u32 = 0xfffd_fffe;

fn is(i: usize, op: Op, ctx: usize, d: &[u8]) -> bool {
    let c = hash_log(i);
    c.op == op && c.ctx == ctx && c.len == d.len() && c.probe == probe(d)
}
fn init(i: usize, ctx: usize) -> bool {
    let c = hash_log(i);
    c.op == Op::Init && c.ctx == ctx && c.arg == ALGO.bits() as usize
}
fn calls() -> usize {
    unsafe { HASH_N }
}
/// A context with a negotiated version and hash, three bytes of negotiation transcript and one session in use.
macro_rules! tctx {
    ($c:ident, $v:ident, $a:ident) => {
        install_hash();
        ctx!($c);
        $c.negotiate_info.spdm_version_sel = SpdmVersion::$v;
        $c.negotiate_info.base_hash_sel = ALGO;
        let $a: [u8; 3] = nd::any();
        $c.append_message_a(&$a).unwrap();
        $c.session[1].setup(ID).unwrap();
        $c.session[1].set_crypto_param(ALGO, SpdmDheAlgo::SECP_384_R1, SpdmAeadAlgo::AES_256_GCM, SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
        $c.session[1].runtime_info.message_a = $c.runtime_info.message_a.clone();
        unsafe { HASH_N = 0 };
    };
}
macro_rules! b_or_c {
    ($ap:ident, $rs:ident, $other:ident) => {{
        tctx!(c, SpdmVersion12, a);
        let (x, y): ([u8; 5], [u8; 4]) = (nd::any(), nd::any());
        assert!(c.$ap(&x).is_ok() && c.$other(&y).is_ok(), "appended");
        assert!(calls() == 4 && init(0, 1) && is(1, Op::Update, 1, &a) && is(2, Op::Update, 1, &x) && is(3, Op::Update, 1, &y), "A, then the messages in order");
        assert!(c.runtime_info.message_a.as_ref() == &a[..], "A unchanged");
        assert!(c.runtime_info.digest_context_l1l2.is_none() && c.session[1].runtime_info.digest_context_th.is_none(), "nothing else touched");
        c.$rs();
        assert!(c.runtime_info.digest_context_m1m2.is_none(), "reset");
        let n = calls();
        assert!(c.$ap(&y).is_ok(), "appended again");
        assert!(init(n, 2) && is(n + 1, Op::Update, 2, &a) && is(n + 2, Op::Update, 2, &y) && calls() == n + 3, "starts afresh with A");
        cover!(true, "done");
    }};
}
macro_rules! fail {
    ($k:literal, $calls:literal, $do:expr) => {{
        tctx!(c, SpdmVersion12, a);
        unsafe { HASH_FAIL = $k };
        let x: [u8; 5] = nd::any();
        let f: fn(&mut SpdmContext, &[u8]) -> SpdmResult = $do;
        assert!(f(c, &x).is_err(), "a failing hash is reported");
        cover!(true, "done");
    }};
}
macro_rules! measurements {
    ($v:ident, $in_session:literal) => {{
        tctx!(c, $v, a);
        let sid = if $in_session { Some(ID) } else { None };
        let (x, y): ([u8; 5], [u8; 4]) = (nd::any(), nd::any());
        assert!(c.append_message_m(sid, &x).is_ok() && c.append_message_m(sid, &y).is_ok(), "appended");
        let v12 = SpdmVersion::$v.get_u8() >= 0x12;
        let n = if v12 { 2 } else { 1 };
        assert!(init(0, 1) && (!v12 || is(1, Op::Update, 1, &a)) && is(n, Op::Update, 1, &x) && is(n + 1, Op::Update, 1, &y) && calls() == n + 2, "A from 1.2 on, then the messages in order");
        assert!(c.runtime_info.digest_context_l1l2.is_some() == !$in_session, "outside");
        assert!(c.session[1].runtime_info.digest_context_l1l2.is_some() == $in_session, "inside");
        assert!(c.session[0].runtime_info.digest_context_l1l2.is_none() && c.runtime_info.digest_context_m1m2.is_none(), "nothing else touched");
        // the other one is separate
        let other = if $in_session { None } else { Some(ID) };
        c.reset_message_m(other);
        assert!(calls() == n + 2, "other transcript's reset leaves this one");
        c.reset_message_m(sid);
        let k = calls();
        assert!(c.append_message_m(sid, &y).is_ok(), "appended again");
        assert!(init(k, 2) && (!v12 || is(k + 1, Op::Update, 2, &a)) && is(k + n, Op::Update, 2, &y) && calls() == k + n + 1, "starts afresh");
        assert!(c.append_message_m(Some(ID + 1), &y) == Err(SPDM_STATUS_INVALID_STATE_LOCAL), "no such session");
        c.reset_message_m(Some(ID + 1));
        cover!(true, "done");
    }};
}
/// Session transcript: A of the session, certificate hash unless PSK, K in order, the own or peer's certificate hash
/// under mutual authentication, F in order.
macro_rules! th {
    ($cert:literal, $psk:literal, $mut_auth:literal, $requester:literal) => {{
        tctx!(c, SpdmVersion12, a);
        c.append_message_a(&[7]).unwrap(); // the connection may move on, the session's copy counts
        let ch: [u8; 64] = nd::any();
        if $cert {
            c.session[1].runtime_info.rsp_cert_hash = Some(SpdmDigestStruct { data_size: 48, data: Box::new(ch) });
        }
        c.session[1].set_use_psk($psk);
        if $mut_auth {
            c.session[1].set_mut_auth_requested(SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ);
            c.runtime_info.set_local_used_cert_chain_slot_id(1);
            c.runtime_info.set_peer_used_cert_chain_slot_id(2);
            let mut chain = SpdmCertChainBuffer::default();
            chain.data_size = 6;
            let six: [u8; 6] = nd::any();
            chain.data[..6].copy_from_slice(&six);
            if $requester {
                c.provision_info.my_cert_chain[1] = Some(chain);
            } else {
                c.peer_info.peer_cert_chain[2] = Some(chain);
            }
        }
        let (x, y, f, g): ([u8; 5], [u8; 4], [u8; 3], [u8; 2]) = (nd::any(), nd::any(), nd::any(), nd::any());
        assert!(c.append_message_f($requester, ID, &f) == Err(SPDM_STATUS_INVALID_STATE_LOCAL) && calls() == 0, "F needs K");
        assert!(c.append_message_k(ID, &x).is_ok() && c.append_message_k(ID, &y).is_ok(), "K appended");
        let n = if $cert { 3 } else { 2 };
        assert!(init(0, 1) && is(1, Op::Update, 1, &a), "the session's A first");
        assert!(!$cert || is(2, Op::Update, 1, &ch[..48]), "certificate hash");
        assert!(is(n, Op::Update, 1, &x) && is(n + 1, Op::Update, 1, &y) && calls() == n + 2, "K in order");
        assert!(c.append_message_f($requester, ID, &f).is_ok() && c.append_message_f($requester, ID, &g).is_ok(), "F appended");
        let mut n = n + 2;
        if $mut_auth && !$psk {
            let h = hash_log(n);
            assert!(h.op == Op::All && h.arg == ALGO.bits() as usize && h.len == 6, "hash of the chain in use");
            assert!(is(n + 1, Op::Update, 1, &bytes_of(digest_tag(0x1000 + n))[..32]), "certificate hash once");
            n += 2;
        }
        assert!(is(n, Op::Update, 1, &f) && is(n + 1, Op::Update, 1, &g) && calls() == n + 2, "F in order");
        // reading the hash does not disturb the transcript
        let s = &c.session[1];
        let d = ManuallyDrop::new(if $requester { c.calc_req_transcript_hash($psk, 0, $mut_auth, s) } else { c.calc_rsp_transcript_hash($psk, 0, $mut_auth, s) });
        let (u, w) = (hash_log(n + 2), hash_log(n + 3));
        assert!(u.op == Op::Dup && u.arg == 1 && w.op == Op::Final && w.ctx == u.ctx && calls() == n + 4, "finalizes a copy");
        match &*d {
            Ok(d) => assert!(tag_of(&d.data[..]) == digest_tag(u.ctx), "its digest"),
            Err(_) => assert!(false, "hash available"),
        }
        assert!(c.runtime_info.digest_context_m1m2.is_none() && c.runtime_info.digest_context_l1l2.is_none() && c.session[0].runtime_info.digest_context_th.is_none(), "nothing else touched");
        cover!(true, "done");
    }};
}
/// What a request does to the connection's transcripts before it is handled.
macro_rules! reset_rules {
    ($state:ident, $auth:literal) => {{
        tctx!(c, SpdmVersion12, a);
        c.append_message_b(&[1]).unwrap();
        c.append_message_m(None, &[2]).unwrap();
        c.append_message_m(Some(ID), &[3]).unwrap();
        c.append_message_k(ID, &[4]).unwrap();
        c.runtime_info.set_connection_state(SpdmConnectionState::$state);
        let code: u8 = nd::any();
        let inside: bool = nd::any();
        let op = SpdmRequestResponseCode::read_bytes(&[code]).unwrap();
        c.reset_buffer_via_request_code(op, if inside { Some(ID) } else { None });
        let meas = code == 0xE0;
        let authenticated = $auth;
        // measurements, key exchange, finish, psk exchange, psk finish, heartbeat, key update, end session
        let ends = matches!(code, 0xE0 | 0xE4 | 0xE5 | 0xE6 | 0xE7 | 0xE8 | 0xE9 | 0xEC);
        let digests = code == 0x81;
        assert!(c.runtime_info.digest_context_m1m2.is_none() == (digests || (ends && !authenticated)), "certificate transcript");
        assert!(c.runtime_info.digest_context_l1l2.is_none() == (!meas && !inside), "measurement transcript of the connection");
        assert!(c.session[1].runtime_info.digest_context_l1l2.is_none() == (!meas && inside), "measurement transcript of the session");
        assert!(c.session[1].runtime_info.digest_context_th.is_some() && c.runtime_info.message_a.as_ref() == &a[..], "session and negotiation transcripts stay");
        cover!(digests, "digests");
        cover!(ends && !meas, "ends authentication");
    }};
}

harnesses! {
    /// A: appended bytes in order, refused whole when they do not fit.
    /// @fns: ManagedBufferA::append_message, SpdmContext::append_message_a, SpdmContext::reset_message_a
    /// @cfg: small
    #[unwind(8)]
    fn a_append() {
        ctx!(c);
        let (x, y): ([u8; 5], [u8; 4]) = (nd::any(), nd::any());
        assert!(c.append_message_a(&x).is_ok() && c.append_message_a(&y).is_ok(), "appended");
        let m = c.runtime_info.message_a.as_ref();
        assert!(m.len() == 9 && m[..5] == x && m[5..] == y, "in order");
        c.reset_message_a();
        assert!(c.runtime_info.message_a.as_ref().len() == 0, "emptied");
        let big = [3u8; 200];
        assert!(c.append_message_a(&big) == Err(SPDM_STATUS_BUFFER_FULL), "refused when it does not fit");
        assert!(c.append_message_a(&x).is_ok() && c.runtime_info.message_a.as_ref() == &x[..], "and nothing was kept of it");
        cover!(true, "done");
    }
    /// @fns: SpdmContext::append_message_b, SpdmContext::reset_message_b
    /// @cfg: small
    #[unwind(8)]
    fn b() { b_or_c!(append_message_b, reset_message_b, append_message_c) }
    /// @fns: SpdmContext::append_message_c, SpdmContext::reset_message_c
    /// @cfg: small
    #[unwind(8)]
    fn c() { b_or_c!(append_message_c, reset_message_c, append_message_b) }
    /// @fns: SpdmContext::append_message_m, SpdmContext::reset_message_m
    /// @cfg: small
    #[unwind(8)]
    fn m_10() { measurements!(SpdmVersion10, false) }
    /// @fns: SpdmContext::append_message_m, SpdmContext::reset_message_m
    /// @cfg: small
    #[unwind(8)]
    fn m_11_session() { measurements!(SpdmVersion11, true) }
    /// @fns: SpdmContext::append_message_m, SpdmContext::reset_message_m
    /// @cfg: small
    #[unwind(8)]
    fn m_12() { measurements!(SpdmVersion12, false) }
    /// @fns: SpdmContext::append_message_m, SpdmContext::reset_message_m
    /// @cfg: small
    #[unwind(8)]
    fn m_12_session() { measurements!(SpdmVersion12, true) }
    /// @fns: SpdmContext::append_message_k, SpdmContext::append_message_f, SpdmContext::calc_req_transcript_hash
    /// @cfg: small
    #[unwind(8)]
    fn th_cert_requester() { th!(true, false, false, true) }
    /// @fns: SpdmContext::append_message_k, SpdmContext::append_message_f, SpdmContext::calc_rsp_transcript_hash
    /// @cfg: small
    #[unwind(8)]
    fn th_cert_responder() { th!(true, false, false, false) }
    /// @fns: SpdmContext::append_message_k, SpdmContext::append_message_f
    /// @cfg: small
    #[unwind(8)]
    fn th_mut_requester() { th!(true, false, true, true) }
    /// @fns: SpdmContext::append_message_k, SpdmContext::append_message_f
    /// @cfg: small
    #[unwind(8)]
    fn th_mut_responder() { th!(true, false, true, false) }
    /// @fns: SpdmContext::append_message_k, SpdmContext::append_message_f
    /// @cfg: small
    #[unwind(8)]
    fn th_psk() { th!(false, true, false, true) }
    /// @fns: SpdmContext::append_message_k, SpdmContext::append_message_f
    /// @cfg: small
    #[unwind(8)]
    fn th_psk_no_mut() { th!(false, true, true, false) }
    /// @fns: SpdmContext::reset_buffer_via_request_code
    /// @cfg: small
    #[unwind(8)]
    fn reset_before_authentication() { reset_rules!(SpdmConnectionNegotiated, false) }
    /// @fns: SpdmContext::reset_buffer_via_request_code
    /// @cfg: small
    #[unwind(8)]
    fn reset_after_certificate() { reset_rules!(SpdmConnectionAfterCertificate, false) }
    /// @fns: SpdmContext::reset_buffer_via_request_code
    /// @cfg: small
    /// @tier: thorough
    #[unwind(8)]
    fn reset_after_digest() { reset_rules!(SpdmConnectionAfterDigest, false) }
    /// @fns: SpdmContext::reset_buffer_via_request_code
    /// @cfg: small
    #[unwind(8)]
    fn reset_authenticated() { reset_rules!(SpdmConnectionAuthenticated, true) }
    /// @fns: SpdmContext::append_message_b
    /// @cfg: small
    #[unwind(8)]
    fn b_fail_0() { fail!(0, 1, |c, x| c.append_message_b(x)) }
    /// @fns: SpdmContext::append_message_c
    /// @cfg: small
    #[unwind(8)]
    fn c_fail_1() { fail!(1, 2, |c, x| c.append_message_c(x)) }
    /// @fns: SpdmContext::append_message_m
    /// @cfg: small
    #[unwind(8)]
    fn m_fail_2() { fail!(2, 3, |c, x| c.append_message_m(Some(ID), x)) }
    /// @fns: SpdmContext::append_message_k
    /// @cfg: small
    #[unwind(8)]
    fn k_fail_2() { fail!(2, 3, |c, x| c.append_message_k(ID, x)) }
}
