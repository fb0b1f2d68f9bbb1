//! P22: responder, session maintenance and vendor defined requests.
//! @level proof
//! @assume transcripts, key updates and sending are taken by contract (P08, P11, P14); the vendor's handler is an assumed function, recorded
use crate::{cx::*, nd, rec::*, spy::*};
use codec::Codec;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const INVALID: u8 = 1;
const UNSPECIFIED: u8 = 5;
const MISMATCH: u8 = 0x41;
const OTHER: u32 = 0xFFFD_1234;
const ID: u32 = 0xFFFC_4321;
const S: Option<u32> = Some(ID);
macro_rules! responder {
    ($r:ident, $v:expr) => {
        let (mut dev, mut tr) = (Dev, Stages);
        rctx!($r, dev, tr);
        $r.common.runtime_info.set_connection_state(SpdmConnectionState::read_bytes(&[4]).unwrap());
        $r.common.negotiate_info.spdm_version_sel = ver($v);
        $r.common.session[0].setup(OTHER).unwrap();
        let s = &mut $r.common.session[1];
        s.setup(ID).unwrap();
        s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
    };
}

// -------------------------------------------------- keys by contract (P08)
const UPDATE: u8 = 7;
const ACTIVATE: u8 = 8;
const LOST: u8 = 9;
const NONE: u8 = 255;
/// Generation of the keys of each direction (requester, responder), and of those kept to fall back to.
static mut KEYS: [u8; 2] = [0; 2];
static mut KEPT: [u8; 2] = [NONE; 2];
/// The next generation of keys, the ones before kept; on failure the keys of one direction are of no use.
fn update(s: &mut SpdmSession, v: SpdmVersion, req: bool, rsp: bool) -> SpdmResult {
    assert!(v.get_u8() == 0x12 && s.get_session_id() == ID, "of this session");
    let r = appended_by(UPDATE, Some(s.get_session_id()), &[], req as usize + 2 * rsp as usize);
    let first: bool = nd::any();
    unsafe {
        if req {
            KEPT[0] = KEYS[0];
            KEYS[0] = if r.is_ok() || rsp && !first { KEYS[0] + 1 } else { LOST };
        }
        if rsp && !(req && r.is_err() && first) {
            KEPT[1] = KEYS[1];
            KEYS[1] = if r.is_ok() { KEYS[1] + 1 } else { LOST };
        }
    }
    r
}
/// The keys kept are dropped, or come back.
fn activate(s: &mut SpdmSession, v: SpdmVersion, req: bool, rsp: bool, new: bool) -> SpdmResult {
    assert!(v.get_u8() == 0x12 && s.get_session_id() == ID, "of this session");
    record(ACTIVATE, Some(s.get_session_id()), &[], 0, true);
    unsafe {
        if req {
            if !new {
                KEYS[0] = KEPT[0];
            }
            KEPT[0] = NONE;
        }
        if rsp {
            if !new {
                KEYS[1] = KEPT[1];
            }
            KEPT[1] = NONE;
        }
    }
    Ok(())
}
/// Sent last, ERROR alone.
macro_rules! refused {
    ($r:expr, $ok:expr, $v:expr, $code:expr) => {{
        let last = called() - 1;
        assert!(sent_error(last, S, $v, $code) && times(SENT) == 1 && call(last).ok == $ok, "ERROR alone");
        assert!($r.common.session[1].get_session_id() == ID && $r.common.session[0].get_session_id() == OTHER, "sessions kept");
    }};
}
/// A request of `n` bytes in a session, every version, complete or not.
macro_rules! simple {
    ($handle:ident, $req:literal, $rsp:literal, $v:literal, $bits:literal) => {{
        responder!(r, $v);
        let mut m: [u8; 4] = nd::any();
        m[1] = $req;
        let n: usize = nd::any();
        nd::assume(n <= 4);
        nd::assume(m[0] >= 0x10 && m[0] <= 0x12);
        let ok = r.$handle(ID, &m[..n]).is_ok();
        let last = called() - 1;
        if n >= 2 && m[0] == $v && n == 4 && m[2] & !$bits == 0 {
            assert!(called() == 2 && call(0).what == RESET_VIA && call(0).arg == $req && call(0).session == S, "transcripts end");
            assert!(is_bytes(1, SENT, S, 4, |p| [$v, $rsp, 0, 0][p]) && call(1).arg == 0 && call(1).ok == ok, "acknowledged in the session");
            cover!(true, "done");
        } else {
            refused!(r, ok, $v, if n >= 2 && m[0] != $v { MISMATCH } else { INVALID });
        }
        assert!(r.common.session[1].get_session_id() == ID && r.common.session[0].get_session_id() == OTHER, "sessions kept until answered");
        let _ = last;
    }};
}
/// KEY_UPDATE with this operation; keys expected after it.
macro_rules! key_update {
    ($op:expr, $fail:expr, $keys:expr, $kept:expr) => {{
        responder!(r, 0x12);
        unsafe {
            KEYS = if $op == 3 { [1, 0] } else { [0, 0] };
            KEPT = if $op == 3 { [0, NONE] } else { [NONE, NONE] };
            FAIL = $fail;
        }
        let m = [0x12, 0xE9, $op, nd::any()];
        let ok = r.handle_spdm_key_update(ID, &m).is_ok();
        let last = called() - 1;
        let (keys, kept) = unsafe { (KEYS, KEPT) };
        if $fail == NO && $op >= 1 && $op <= 3 {
            assert!(call(0).what == RESET_VIA && call(0).arg == 0xE9 && call(0).session == S, "transcripts end");
            assert!(is_bytes(last, SENT, S, 4, |p| [0x12, 0x69, $op, m[3]][p]) && call(last).arg == 0 && call(last).ok == ok, "acknowledged with the operation and tag asked for");
            assert!(times(SENT) == 1, "after the update");
            let want: ([u8; 2], u8) = ($keys, $kept);
            assert!(keys == want.0 && kept[0] == want.1 && kept[1] == NONE, "the keys asked for");
        } else {
            refused!(r, ok, 0x12, if $fail == NO { INVALID } else { UNSPECIFIED });
            assert!(keys == if $op == 3 { [1, 0] } else { [0, 0] }, "no other keys");
        }
        cover!(true, "done");
    }};
}

// ------------------------------------------------------- vendor defined
const VENDOR: u8 = 9;
const RSP_LEN: usize = 3;
static mut RSP: [u8; 8] = [0; 8];
/// The vendor's handler: a response of three bytes, or an error.
fn handler(q: &VendorDefinedReqPayloadStruct) -> SpdmResult<VendorDefinedRspPayloadStruct> {
    assert!(q.req_length as usize <= q.vendor_defined_req_payload.len(), "all of the request is there");
    appended(VENDOR, None, &q.vendor_defined_req_payload[..q.req_length as usize])?;
    let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
    unsafe { vendor_defined_rsp_payload[..8].copy_from_slice(&RSP) };
    Ok(VendorDefinedRspPayloadStruct { rsp_length: RSP_LEN as u16, vendor_defined_rsp_payload })
}
/// A request of vendor id length `$id`, payload `$len`, in a session or not.
macro_rules! vendor {
    ($s:expr, $id:literal, $len:literal, $cut:literal, $v:expr, $fail:expr) => {{
        responder!(r, 0x12);
        register_vendor_defined_struct(VendorDefinedStruct { vendor_defined_request_handler: handler });
        unsafe {
            RSP = nd::any();
            FAIL = $fail;
        }
        const N: usize = 4 + 2 + 1 + $id + 2 + $len;
        let mut m: [u8; N] = nd::any();
        m[0] = $v;
        m[1] = 0xFE;
        nd::assume(m[5] == 0);
        m[6] = $id;
        m[7 + $id] = $len;
        m[8 + $id] = 0;
        let session: Option<u32> = $s;
        let ok = r.handle_spdm_vendor_defined_request(session, &m[..N - $cut]).is_ok();
        let last = called() - 1;
        assert!(times(SENT) == 1 && call(last).what == SENT && call(last).ok == ok, "one response");
        if $v != 0x12 {
            assert!(sent_error(last, session, 0x12, MISMATCH) && times(VENDOR) == 0, "ERROR alone");
        } else if $cut != 0 {
            assert!(sent_error(last, session, 0x12, INVALID) && times(VENDOR) == 0, "ERROR alone");
        } else {
            assert!(call(0).what == RESET_VIA && call(0).arg == 0xFE && call(0).session == session, "transcripts end");
            assert!(is_bytes(only(VENDOR), VENDOR, None, $len, |p| m[9 + $id + p]), "the vendor's handler gets the request");
            if $fail != NO {
                assert!(sent_error(last, session, 0x12, UNSPECIFIED), "ERROR alone");
            } else {
                let f = |p: usize| match p {
                    0..=3 => [0x12, 0x7E, 0, 0][p],
                    _ if p < 7 + $id => m[p],
                    _ if p == 7 + $id => RSP_LEN as u8,
                    _ if p == 8 + $id => 0,
                    _ => unsafe { RSP[p - 9 - $id] },
                };
                assert!(is_bytes(last, SENT, session, 9 + $id + RSP_LEN, f) && call(last).arg == 0, "its answer under the same ids");
            }
        }
        cover!(true, "done");
    }};
}
macro_rules! keys_by_contract {
    ($($item:tt)*) => {
        responses! {
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::create_data_secret_update, update))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::activate_data_secret_update, activate))]
        $($item)*
        }
    };
}
harnesses! {
    /// @fns: ResponderContext::handle_spdm_heartbeat, ResponderContext::write_spdm_heartbeat_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn heartbeat_11() { simple!(handle_spdm_heartbeat, 0xE8, 0x68, 0x11, 0xFF) }
    /// @fns: ResponderContext::handle_spdm_heartbeat, ResponderContext::write_spdm_heartbeat_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn heartbeat_12() { simple!(handle_spdm_heartbeat, 0xE8, 0x68, 0x12, 0xFF) }
    /// @fns: ResponderContext::handle_spdm_end_session, ResponderContext::write_spdm_end_session_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn end_session_11() { simple!(handle_spdm_end_session, 0xEC, 0x6C, 0x11, 1) }
    /// @fns: ResponderContext::handle_spdm_end_session, ResponderContext::write_spdm_end_session_response
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn end_session_12() { simple!(handle_spdm_end_session, 0xEC, 0x6C, 0x12, 1) }
    /// @fns: ResponderContext::handle_spdm_key_update, ResponderContext::write_spdm_key_update_response
    /// @cfg: small
    #[stubs(keys_by_contract)]
    #[unwind(10)]
    fn update_one() { key_update!(1, NO, [1, 0], 0) }
    /// @fns: ResponderContext::handle_spdm_key_update, ResponderContext::write_spdm_key_update_response
    /// @cfg: small
    #[stubs(keys_by_contract)]
    #[unwind(10)]
    fn update_one_fails() { key_update!(1, (UPDATE, 0), [0, 0], NONE) }
    /// @fns: ResponderContext::handle_spdm_key_update, ResponderContext::write_spdm_key_update_response
    /// @cfg: small
    #[stubs(keys_by_contract)]
    #[unwind(10)]
    fn update_all() { key_update!(2, NO, [1, 1], NONE) }
    /// @fns: ResponderContext::handle_spdm_key_update, ResponderContext::write_spdm_key_update_response
    /// @cfg: small
    #[stubs(keys_by_contract)]
    #[unwind(10)]
    fn update_all_fails() { key_update!(2, (UPDATE, 0), [0, 0], NONE) }
    /// @fns: ResponderContext::handle_spdm_key_update, ResponderContext::write_spdm_key_update_response
    /// @cfg: small
    #[stubs(keys_by_contract)]
    #[unwind(10)]
    fn verify_new() { key_update!(3, NO, [1, 0], NONE) }
    /// @fns: ResponderContext::handle_spdm_key_update, ResponderContext::write_spdm_key_update_response
    /// @cfg: small
    #[stubs(keys_by_contract)]
    #[unwind(10)]
    fn update_unknown() { let op: u8 = nd::any(); nd::assume(op == 0 || op > 3); key_update!(op, NO, [0, 0], NONE) }
    /// A request that is too short or of another version changes no keys.
    /// @fns: ResponderContext::handle_spdm_key_update, ResponderContext::write_spdm_key_update_response
    /// @cfg: small
    #[stubs(keys_by_contract)]
    #[unwind(10)]
    fn update_malformed() {
        responder!(r, 0x12);
        let mut m: [u8; 4] = nd::any();
        m[1] = 0xE9;
        let n: usize = nd::any();
        nd::assume(n <= 4 && m[0] >= 0x10 && m[0] <= 0x12 && (n < 4 || m[0] != 0x12));
        let ok = r.handle_spdm_key_update(ID, &m[..n]).is_ok();
        refused!(r, ok, 0x12, if n >= 2 && m[0] != 0x12 { MISMATCH } else { INVALID });
        assert!(times(UPDATE) == 0 && times(ACTIVATE) == 0, "no other keys");
        cover!(n == 3 && m[0] == 0x12, "short");
    }
    /// @fns: ResponderContext::handle_spdm_vendor_defined_request, ResponderContext::write_spdm_vendor_defined_response, SpdmVendorDefinedRequestPayload::spdm_read, SpdmVendorDefinedResponsePayload::spdm_encode
    /// @bound: vendor id of 2 bytes, payload of 5
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn vendor_defined() { vendor!(None, 2, 5, 0, 0x12, NO) }
    /// @fns: ResponderContext::handle_spdm_vendor_defined_request, ResponderContext::write_spdm_vendor_defined_response, SpdmVendorDefinedRequestPayload::spdm_read, SpdmVendorDefinedResponsePayload::spdm_encode
    /// @bound: no vendor id, payload of 7 bytes
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn vendor_defined_session() { vendor!(S, 0, 7, 0, 0x12, NO) }
    /// @fns: ResponderContext::handle_spdm_vendor_defined_request, ResponderContext::write_spdm_vendor_defined_response
    /// @bound: vendor id of 2 bytes, payload of 5
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn vendor_refuses() { vendor!(S, 2, 5, 0, 0x12, (VENDOR, 0)) }
    /// @fns: ResponderContext::handle_spdm_vendor_defined_request, ResponderContext::write_spdm_vendor_defined_response
    /// @bound: vendor id of 2 bytes, payload of 5
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn vendor_other_version() { vendor!(None, 2, 5, 0, 0x11, NO) }
    /// @fns: ResponderContext::handle_spdm_vendor_defined_request, ResponderContext::write_spdm_vendor_defined_response
    /// @bound: vendor id of 2 bytes, payload of 5
    /// @cfg: small
    #[stubs(responses)]
    #[unwind(10)]
    fn vendor_cut() { vendor!(S, 2, 5, 1, 0x12, NO) }
    /// Payload lengths beyond what is kept of a message are refused, in requests and responses.
    /// @fns: VendorDefinedReqPayloadStruct::read, VendorDefinedRspPayloadStruct::read
    /// @cfg: small
    #[unwind(10)]
    fn vendor_lengths() {
        let n: u16 = nd::any();
        nd::assume(n < 6 || n as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE);
        let x: [u8; 5] = nd::any();
        let l = n.to_le_bytes();
        let m = [l[0], l[1], x[0], x[1], x[2], x[3], x[4]];
        match VendorDefinedReqPayloadStruct::read_bytes(&m) {
            Some(q) => assert!(n <= 5 && q.req_length == n && (0..5).all(|i| q.vendor_defined_req_payload[i] == if i < n as usize { x[i] } else { 0 }), "as received"),
            None => assert!(n > 5, "only what is there"),
        }
        match VendorDefinedRspPayloadStruct::read_bytes(&m) {
            Some(q) => assert!(n <= 5 && q.rsp_length == n && (0..5).all(|i| q.vendor_defined_rsp_payload[i] == if i < n as usize { x[i] } else { 0 }), "as received"),
            None => assert!(n > 5, "only what is there"),
        }
        cover!(n == 5, "done");
    }
    /// No handler registered: refused.
    /// @fns: vendor_defined_request_handler
    /// @cfg: small
    #[unwind(10)]
    fn vendor_none() {
        let q = VendorDefinedReqPayloadStruct { req_length: 0, vendor_defined_req_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE] };
        assert!(vendor_defined_request_handler(&q).is_err(), "refused");
    }
}
