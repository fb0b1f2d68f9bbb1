//! P14: the responder's state follows what it has actually sent.
//! @level proof
use crate::{cx::*, nd, spy::*};
use codec::Codec;
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const ID: u32 = 0xfffc_fffc;
const OTHER: u32 = 0xfffd_fffe;
type C = SpdmConnectionState;
type S = SpdmSessionState;
fn conn(n: u8) -> C {
    C::read_bytes(&[n]).unwrap()
}
/// A responder with two sessions, the first established, the second in `st`, the connection in state `n`.
macro_rules! responder {
    ($r:ident, $n:ident, $st:expr) => {
        let (mut dev, mut tr) = (Out, Stages);
        rctx!($r, dev, tr);
        let $n: u8 = nd::any();
        nd::assume($n <= 6);
        $r.common.runtime_info.set_connection_state(conn($n));
        $r.common.session[0].setup(OTHER).unwrap();
        $r.common.session[0].set_session_state(S::SpdmSessionEstablished);
        $r.common.session[1].setup(ID).unwrap();
        $r.common.session[1].set_session_state($st);
        $r.common.negotiate_info.spdm_version_sel = SpdmVersion::SpdmVersion12;
    };
}
fn state_after(op: u8, n: u8) -> u8 {
    match op {
        0x04 => 1,
        0x61 => 2,
        0x63 => 3,
        0x01 => if n < 4 { 4 } else { n },
        0x02 => if n < 5 { 5 } else { n },
        0x03 => 6,
        _ => n,
    }
}
macro_rules! unchanged {
    ($r:ident, $n:ident, $st:expr) => {
        assert!($r.common.runtime_info.get_connection_state().get_u8() == $n, "connection state unchanged");
        assert!($r.common.session[1].get_session_id() == ID && $r.common.session[1].get_session_state() == $st, "session unchanged");
        assert!($r.common.session[0].get_session_id() == OTHER && $r.common.session[0].get_session_state() == S::SpdmSessionEstablished, "other session unchanged");
    };
}
macro_rules! clear {
    ($last:expr, $size:literal, $finish:literal, |$p:ident| $pre:expr, |$m:ident, $k:ident| $cov:expr) => {{
        responder!(r, n, S::SpdmSessionHandshaking);
        r.common.negotiate_info.req_data_transfer_size_sel = $size;
        let mut m: [u8; 6] = nd::any();
        if $finish {
            m[1] = 0x65;
        }
        let $p = m[1];
        nd::assume($pre);
        r.common.runtime_info.set_last_session_id($last);
        assert!(r.send_message(&m).is_ok(), "sent");
        let (a, b) = (io(0), io(1));
        assert!(unsafe { IO_N } == 2 && a.op == 1 && a.len == 6 && a.probe == probe(&m) && !a.flag, "framed as message in the clear");
        assert!(b.op == 5 && b.len == 11 && (unsafe { PROBE } >= 11 || b.probe == unsafe { STAGE[0] }), "what was framed is sent");
        assert!(r.common.runtime_info.get_connection_state().get_u8() == state_after(m[1], n), "connection state");
        let finish = m[1] == 0x65;
        assert!(r.common.session[1].get_session_state() == if finish { S::SpdmSessionEstablished } else { S::SpdmSessionHandshaking }, "established by FINISH_RSP only");
        assert!(r.common.runtime_info.get_last_session_id() == if finish { None } else { $last }, "the session being set up");
        assert!(r.common.session[1].get_session_id() == ID && r.common.session[0].get_session_id() == OTHER && r.common.session[0].get_session_state() == S::SpdmSessionEstablished, "other session unchanged");
        let ($m, $k) = (m[1], n);
        cover!($cov, "done");
    }};
}
macro_rules! fails {
    ($k:literal, $n:literal, |$r:ident, $m:ident| $send:expr) => {{
        responder!($r, n, S::SpdmSessionHandshaking);
        $r.common.runtime_info.set_last_session_id(Some(ID));
        unsafe { IO_FAIL = $k };
        let $m: [u8; 6] = nd::any();
        assert!($send.is_err() && unsafe { IO_N } == $n, "the failure is reported and nothing more is done");
        unchanged!($r, n, S::SpdmSessionHandshaking);
        assert!($r.common.runtime_info.get_last_session_id() == Some(ID), "unchanged");
        cover!(true, "done");
    }};
}

harnesses! {
    /// A response sent in the clear moves the connection on exactly as SPDM says.
    /// @fns: ResponderContext::send_message
    /// @cfg: small
    #[unwind(8)]
    fn clear() { clear!(None, 0, false, |m| m != 0x65, |m, n| m == 1 && n == 6) }
    /// @fns: ResponderContext::send_message
    /// @cfg: small
    #[unwind(8)]
    fn clear_fits() { clear!(Some(ID), 6, false, |m| m != 0x65, |m, n| m == 2 && n == 3) }
    /// FINISH_RSP establishes the session being set up.
    /// @fns: ResponderContext::send_message
    /// @cfg: small
    #[unwind(8)]
    fn clear_finish() { clear!(Some(ID), 0, true, |m| true, |m, n| m == 0x65) }
    /// What the requester cannot take is not sent; an ERROR is, and nothing moves on.
    /// @fns: ResponderContext::send_message, ResponderContext::write_spdm_error
    /// @cfg: small
    #[unwind(8)]
    fn clear_too_large() {
        responder!(r, n, S::SpdmSessionHandshaking);
        r.common.negotiate_info.req_data_transfer_size_sel = 42;
        let m: [u8; 43] = nd::any();
        assert!(r.send_message(&m).is_ok(), "sent");
        let (a, b) = (io(0), io(1));
        assert!(unsafe { IO_N } == 2 && a.op == 1 && a.len == 4 && a.head == [0x12, 0x7F, 0x0D, 0] && !a.flag && b.op == 5, "ERROR response too large");
        unchanged!(r, n, S::SpdmSessionHandshaking);
        cover!(true, "done");
    }
    /// @fns: ResponderContext::send_message
    /// @cfg: small
    #[unwind(8)]
    fn clear_frame_fails() { fails!(0, 1, |r, m| r.send_message(&m)) }
    /// @fns: ResponderContext::send_message
    /// @cfg: small
    #[unwind(8)]
    fn clear_send_fails() { fails!(1, 2, |r, m| r.send_message(&m)) }
    /// A response sent in a session changes the state of that session only, and only if it is not application data.
    /// @fns: ResponderContext::send_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn secured() {
        responder!(r, n, S::SpdmSessionHandshaking);
        let app: bool = nd::any();
        let m: [u8; 6] = nd::any();
        assert!(r.send_secured_message(ID, &m, app).is_ok(), "sent");
        let (a, b, c, d) = (io(0), io(1), io(2), io(3));
        assert!(unsafe { IO_N } == 4 && a.op == 3 && a.len == 6 && a.flag == app && a.probe == probe(&m), "framed as message or application data");
        assert!(b.op == 7 && b.id == ID && !b.flag && c.op == 1 && c.flag && d.op == 5 && d.len == 11, "sealed by that session as coming from the responder, framed, sent");
        assert!(r.common.runtime_info.get_connection_state().get_u8() == n, "connection state unchanged");
        let (id, st) = (r.common.session[1].get_session_id(), r.common.session[1].get_session_state());
        match m[1] {
            0x6C if !app => assert!(id == 0 && st == S::SpdmSessionNotStarted, "ended"),
            0x65 | 0x67 if !app => assert!(id == ID && st == S::SpdmSessionEstablished, "established"),
            _ => assert!(id == ID && st == S::SpdmSessionHandshaking, "unchanged"),
        }
        assert!(r.common.session[0].get_session_id() == OTHER && r.common.session[0].get_session_state() == S::SpdmSessionEstablished, "other session unchanged");
        cover!(m[1] == 0x6C && !app, "end session");
        cover!(m[1] == 0x6C && app, "application data that looks like it");
        cover!(m[1] == 0x67 && !app, "psk finish");
    }
    /// Application data of any length, however short.
    /// @fns: ResponderContext::send_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn secured_app_short() {
        responder!(r, n, S::SpdmSessionEstablished);
        r.common.negotiate_info.req_data_transfer_size_sel = 42;
        let m: [u8; 1] = nd::any();
        assert!(r.send_secured_message(ID, &m, true).is_ok() && r.send_secured_message(ID, &[], true).is_ok(), "sent");
        assert!(unsafe { IO_N } == 8 && io(0).len == 1 && io(4).len == 0 && io(0).flag && io(4).flag, "as application data");
        unchanged!(r, n, S::SpdmSessionEstablished);
        cover!(true, "done");
    }
    /// What the requester cannot take is not sent; an ERROR is, in the session, and nothing moves on.
    /// @fns: ResponderContext::send_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn secured_too_large() {
        responder!(r, n, S::SpdmSessionHandshaking);
        r.common.negotiate_info.req_data_transfer_size_sel = 42;
        let m: [u8; 43] = nd::any();
        assert!(r.send_secured_message(ID, &m, false).is_ok(), "sent");
        let (a, b) = (io(0), io(1));
        assert!(unsafe { IO_N } == 4 && a.op == 3 && a.len == 4 && a.head == [0x12, 0x7F, 0x0D, 0] && !a.flag && b.op == 7 && b.id == ID, "ERROR response too large");
        unchanged!(r, n, S::SpdmSessionHandshaking);
        cover!(true, "done");
    }
    /// @fns: ResponderContext::send_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn secured_seal_fails() { fails!(1, 2, |r, m| r.send_secured_message(ID, &m, false)) }
    /// @fns: ResponderContext::send_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::encode_spdm_secured_message, crate::cx::seal)]
    #[unwind(8)]
    fn secured_send_fails() { fails!(3, 4, |r, m| r.send_secured_message(ID, &m, false)) }
}
