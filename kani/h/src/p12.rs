//! P12: the table of sessions.
//! @level proof
//! @assume two session slots (configuration small) instead of four
use crate::{contracts::*, cx::*, nd, spy::*};
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::protocol::*;

/// Slots holding arbitrary ids.
macro_rules! table {
    ($c:ident, $i:ident) => {
        ctx!($c);
        let $i: [u32; 2] = nd::any();
        $c.session[0].setup($i[0]).unwrap();
        $c.session[1].setup($i[1]).unwrap();
    };
}
fn ok_half(id: u32, slot: u16, requester: bool) -> bool {
    let h = (if requester { id } else { id >> 16 }) as u16;
    h == 0 || h == 0xFFFD - slot
}
macro_rules! half {
    ($requester:literal) => {{
        table!(c, id);
        let own = |x: u32| (if $requester { x } else { x >> 16 }) as u16;
        let r = c.get_next_half_session_id($requester);
        let free = if own(id[0]) == 0 { Some(0u16) } else if own(id[1]) == 0 { Some(1) } else { None };
        match free {
            Some(slot) => assert!(r == Ok(0xFFFD - slot), "the half id of the first slot without one"),
            None => assert!(r == Err(SPDM_STATUS_SESSION_NUMBER_EXCEED), "no slot left"),
        }
        // ids given out that way never repeat one in use
        if ok_half(id[0], 0, $requester) && ok_half(id[1], 1, $requester) {
            if let Ok(h) = r {
                assert!(h != own(id[0]) && h != own(id[1]) && h != 0, "not in use");
            }
        }
        cover!(r.is_err(), "full");
        cover!(r == Ok(0xFFFC), "second slot");
    }};
}
macro_rules! send {
    ($requester:literal, $app:literal) => {{
        let (mut d, mut t) = (Dev, Stages);
        ctx!(c, d, t);
        unsafe { PROBE = nd::any() };
        c.session[0].setup(0xfffd_fffe).unwrap();
        c.session[1].setup(0xfffc_fffc).unwrap();
        let msg: [u8; 6] = nd::any();
        let mut out = [0u8; 16];
        let r = c.encode_secured_message(0xfffc_fffc, &msg, &mut out, $requester, $app);
        let (a, b, e) = (io(0), io(1), io(2));
        assert!(r == Ok(11) && unsafe { IO_N } == 3, "framed, sealed, framed");
        assert!(a.op == 3 && a.len == 6 && a.probe == probe(&msg) && a.flag == $app, "application frame of the message");
        assert!(b.op == 7 && b.len == 7 && b.id == 0xfffc_fffc && b.flag == $requester, "sealed by that session in that direction");
        assert!(e.op == 1 && e.len == 10 && e.flag, "framed as secured message");
        let p = unsafe { PROBE };
        unsafe {
            assert!(p >= 7 || b.probe == STAGE[0], "what was framed is sealed");
            assert!(p >= 10 || e.probe == STAGE[1], "what was sealed is framed");
            assert!(p >= 11 || out[p] == STAGE[2], "what was framed is put out");
        }
        cover!(true, "done");
    }};
}

harnesses! {
    /// @fns: SpdmContext::get_session_via_id, SpdmContext::get_immutable_session_via_id, SpdmContext::get_next_avaiable_session, SpdmContext::get_session_status
    /// @cfg: small
    #[unwind(8)]
    fn lookup() {
        table!(c, id);
        let want: u32 = nd::any();
        let slot = if id[0] == want { Some(0) } else if id[1] == want { Some(1) } else { None };
        let at = |s: Option<*const SpdmSession>, c: &SpdmContext| match s {
            None => None,
            Some(p) => Some(if core::ptr::eq(p, &c.session[0]) { 0 } else { 1 }),
        };
        let s = c.get_session_via_id(want).map(|s| s as *const SpdmSession);
        assert!(at(s, c) == slot, "the session with that id");
        let s = c.get_immutable_session_via_id(want).map(|s| s as *const SpdmSession);
        assert!(at(s, c) == slot, "the session with that id");
        let free = if id[0] == 0 { Some(0) } else if id[1] == 0 { Some(1) } else { None };
        let s = c.get_next_avaiable_session().map(|s| s as *const SpdmSession);
        assert!(at(s, c) == free, "a free slot");
        c.session[1].set_session_state(SpdmSessionState::SpdmSessionEstablished);
        let st = c.get_session_status();
        assert!(st[0] == (id[0], SpdmSessionState::SpdmSessionNotStarted) && st[1] == (id[1], SpdmSessionState::SpdmSessionEstablished), "status of every slot");
        cover!(slot == Some(1), "second");
        cover!(slot.is_none(), "unknown");
    }
    /// @fns: SpdmContext::get_next_half_session_id
    /// @cfg: small
    #[unwind(8)]
    fn half_requester() { half!(true) }
    /// @fns: SpdmContext::get_next_half_session_id
    /// @cfg: small
    #[unwind(8)]
    fn half_responder() { half!(false) }
    /// @fns: SpdmContext::encode_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn send_requester() { send!(true, false) }
    /// @fns: SpdmContext::encode_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn send_responder_app() { send!(false, true) }
    /// Nothing goes out for an unknown session, or if any stage fails.
    /// @fns: SpdmContext::encode_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn send_refused() {
        let (mut d, mut t) = (Dev, Stages);
        ctx!(c, d, t);
        unsafe { PROBE = 0 };
        c.session[0].setup(0xfffd_fffe).unwrap();
        let id: u32 = nd::any();
        nd::assume(id != 0xfffd_fffe && id != 0);
        let mut out = [0u8; 16];
        assert!(c.encode_secured_message(id, &[1, 2], &mut out, true, false).is_err(), "unknown session");
        assert!(unsafe { IO_N } <= 1 && io(0).op != 1, "nothing framed for sending");
        for k in 0..3 {
            unsafe {
                IO_N = 0;
                IO_FAIL = k;
            }
            assert!(c.encode_secured_message(0xfffd_fffe, &[1, 2], &mut out, true, false).is_err(), "failure is reported");
        }
        cover!(true, "done");
    }
    /// @fns: SpdmContext::decode_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::cx::open)]
    #[unwind(8)]
    fn receive() {
        let (mut d, mut t) = (Dev, Stages);
        ctx!(c, d, t);
        unsafe {
            PROBE = nd::any();
            SECURED = true;
        };
        c.session[0].setup(0xfffd_fffe).unwrap();
        c.session[1].setup(0xfffc_fffc).unwrap();
        let msg: [u8; 12] = nd::any();
        let mut out = [0u8; 16];
        let r = c.decode_secured_message(0xfffc_fffc, &msg, &mut out);
        let (a, b, e) = (io(0), io(1), io(2));
        assert!(r == Ok(5) && unsafe { IO_N } == 3, "unframed, opened, unframed");
        assert!(a.op == 2 && a.len == 12 && a.probe == probe(&msg), "the message received");
        assert!(b.op == 8 && b.len == 9 && b.id == 0xfffc_fffc && !b.flag, "opened by that session as coming from its responder");
        assert!(e.op == 4 && e.len == 8, "unframed");
        let p = unsafe { PROBE };
        unsafe {
            assert!(p >= 9 || b.probe == STAGE[0], "what was unframed is opened");
            assert!(p >= 8 || e.probe == STAGE[1], "what was opened is unframed");
            assert!(p >= 5 || out[p] == STAGE[2], "what was unframed is put out");
        }
        cover!(true, "done");
    }
    /// A frame in the clear is never taken for a secured one, nor the reverse.
    /// @fns: SpdmContext::decode_secured_message, SpdmContext::decap
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::cx::open)]
    #[unwind(8)]
    fn receive_refused() {
        let (mut d, mut t) = (Dev, Stages);
        ctx!(c, d, t);
        unsafe { PROBE = 0 };
        c.session[0].setup(0xfffd_fffe).unwrap();
        let mut out = [0u8; 16];
        unsafe { SECURED = false };
        assert!(c.decode_secured_message(0xfffd_fffe, &[1, 2], &mut out).is_err() && unsafe { IO_N } == 1, "frame in the clear");
        assert!(c.decap(&[1, 2], &mut out) == Ok(9), "message in the clear");
        unsafe { SECURED = true };
        assert!(c.decap(&[1, 2], &mut out).is_err(), "secured message");
        assert!(c.decode_secured_message(0xfffd_fffd, &[1, 2], &mut out).is_err(), "unknown session");
        for k in 0..3 {
            unsafe {
                IO_N = 0;
                IO_FAIL = k;
            }
            assert!(c.decode_secured_message(0xfffd_fffe, &[1, 2], &mut out).is_err(), "failure is reported");
        }
        cover!(true, "done");
    }
    /// Starting over forgets the connection, the peer and every session.
    /// @fns: SpdmContext::reset_context
    /// @cfg: small
    #[unwind(12)]
    fn reset() {
        install_hash();
        ctx!(c);
        c.runtime_info.set_connection_state(SpdmConnectionState::SpdmConnectionAuthenticated);
        c.runtime_info.set_last_session_id(Some(3));
        c.runtime_info.set_peer_used_cert_chain_slot_id(nd::any());
        c.runtime_info.set_local_used_cert_chain_slot_id(nd::any());
        c.runtime_info.need_measurement_summary_hash = nd::any();
        c.runtime_info.need_measurement_signature = nd::any();
        c.append_message_a(&[1, 2, 3]).unwrap();
        c.append_message_b(&[1]).unwrap();
        c.append_message_m(None, &[1]).unwrap();
        c.negotiate_info.spdm_version_sel = version();
        c.negotiate_info.base_hash_sel = hash_algo();
        c.negotiate_info.aead_sel = aead_algo();
        c.negotiate_info.req_data_transfer_size_sel = nd::any();
        c.negotiate_info.rsp_capabilities_sel = SpdmResponseCapabilityFlags::all();
        c.negotiate_info.req_capabilities_sel = SpdmRequestCapabilityFlags::all();
        c.peer_info.peer_cert_chain[3] = Some(SpdmCertChainBuffer::default());
        c.peer_info.peer_cert_chain_temp = Some(SpdmCertChainBuffer::default());
        c.session[0].setup(nd::any()).unwrap();
        c.session[1].setup(nd::any()).unwrap();
        c.session[1].set_session_state(SpdmSessionState::SpdmSessionEstablished);
        c.reset_context();
        let r = &c.runtime_info;
        assert!(r.get_connection_state() == SpdmConnectionState::SpdmConnectionNotStarted && r.get_last_session_id().is_none(), "not started");
        assert!(r.get_peer_used_cert_chain_slot_id() == 0 && r.get_local_used_cert_chain_slot_id() == 0 && !r.need_measurement_summary_hash && !r.need_measurement_signature, "no request pending");
        assert!(r.message_a.as_ref().len() == 0 && r.digest_context_m1m2.is_none() && r.digest_context_l1l2.is_none(), "no transcript");
        let n = &c.negotiate_info;
        assert!(n.spdm_version_sel == SpdmVersion::default() && n.base_hash_sel.is_empty() && n.aead_sel.is_empty() && n.rsp_capabilities_sel.is_empty() && n.req_capabilities_sel.is_empty() && n.req_data_transfer_size_sel == 0, "nothing negotiated");
        for i in 0..8 {
            assert!(c.peer_info.peer_cert_chain[i].is_none(), "no peer certificate");
        }
        assert!(c.peer_info.peer_cert_chain_temp.is_none(), "no peer certificate");
        for i in 0..2 {
            assert!(c.session[i].get_session_id() == 0 && c.session[i].get_session_state() == SpdmSessionState::SpdmSessionNotStarted, "no session");
        }
        cover!(true, "done");
    }
}
