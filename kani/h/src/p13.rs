//! P13: a responder serves a request only where SPDM allows it.
//! @level proof
//! @assume request handlers are taken by contract here: any outcome
use crate::{cx::*, nd, rec::*, spy::*};
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::responder::ResponderContext;

const ID: u32 = 0xfffc_fffc;
const UNEXPECTED: usize = 4;
const UNSUPPORTED: usize = 7;

/// What is to happen to a request: served, refused with an ERROR of that code, or not answered.
#[derive(PartialEq, Eq, Clone, Copy)]
enum Fate {
    Serve,
    Refuse(usize),
    Drop,
}
use Fate::*;
fn known_request(code: u8) -> bool {
    matches!(code, 0x81..=0x84 | 0xE0..=0xEC | 0xFE | 0xFF) && code != 0xE2 && code != 0xEA && code != 0xEB
}
fn refuse(code: u8) -> Fate {
    if code == 0xFF { Refuse(UNSUPPORTED) } else if known_request(code) { Refuse(UNEXPECTED) } else { Drop }
}
fn check(r: SpdmResult, code: u8, session: Option<u32>, len: usize, p: u8, f: Fate) {
    let k = call(0);
    match f {
        Serve => assert!(called() == 1 && k.what == code && k.session == session && k.len == len && k.probe == p, "served by the handler for that request, in that session"),
        Refuse(e) => assert!(called() == 1 && k.what == 1 && k.arg == e && k.session == session && k.len == len && k.probe == p, "refused with that error, in that session"),
        Drop => assert!(called() == 0 && r == Err(SPDM_STATUS_UNSUPPORTED_CAP), "not answered"),
    }
    if f != Drop {
        assert!(r.is_ok() == k.ok, "the handler's outcome");
    }
}
fn caps(r: &mut ResponderContext) -> bool {
    let (q, s): (bool, bool) = (nd::any(), nd::any());
    r.common.negotiate_info.req_capabilities_sel = if q { SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP } else { SpdmRequestCapabilityFlags::all() - SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP };
    r.common.negotiate_info.rsp_capabilities_sel = if s { SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP } else { SpdmResponseCapabilityFlags::all() - SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP };
    q && s
}
fn state() -> SpdmSessionState {
    let n: u8 = nd::any();
    match n {
        0 => SpdmSessionState::SpdmSessionNotStarted,
        1 => SpdmSessionState::SpdmSessionHandshaking,
        2 => SpdmSessionState::SpdmSessionEstablished,
        _ => SpdmSessionState::Unknown(n),
    }
}
/// A device and transport that deliver one message: `msg` in the clear, or secured for session `to`.
#[derive(Clone, Copy)]
struct Rx {
    to: u32,
    msg: [u8; 5],
    app: bool,
    secured: bool,
    fail: u8,
}
impl SpdmDeviceIo for Rx {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        outcome(3, None, b, 0)
    }
    fn receive(&mut self, _b: &mut [u8], _t: usize) -> Result<usize, usize> {
        if self.fail == 1 { Err(7) } else { Ok(9) }
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
impl SpdmTransportEncap for Rx {
    fn encap(&mut self, _s: &[u8], _t: &mut [u8], _m: bool) -> SpdmResult<usize> {
        Err(SPDM_STATUS_ENCAP_FAIL)
    }
    fn decap(&mut self, t: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        assert!(t.len() == 9, "what was received is unframed");
        if self.fail == 2 {
            return Err(SPDM_STATUS_DECAP_FAIL);
        }
        if self.secured {
            s[..4].copy_from_slice(&self.to.to_le_bytes());
            Ok((8, true))
        } else {
            s[..5].copy_from_slice(&self.msg);
            Ok((5, false))
        }
    }
    fn encap_app(&mut self, _s: &[u8], _a: &mut [u8], _m: bool) -> SpdmResult<usize> {
        Err(SPDM_STATUS_ENCAP_APP_FAIL)
    }
    fn decap_app(&mut self, a: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        assert!(a.len() == 6, "what was opened is unframed");
        if self.fail == 4 {
            return Err(SPDM_STATUS_DECAP_APP_FAIL);
        }
        s[..5].copy_from_slice(&self.msg);
        Ok((5, self.app))
    }
    fn get_sequence_number_count(&mut self) -> u8 {
        2
    }
    fn get_max_random_count(&mut self) -> u16 {
        0
    }
}
macro_rules! received {
    ($r:ident, $m:ident, $st:expr, $secured:literal, $app:literal, $fail:literal, $to:expr) => {
        let $m: [u8; 5] = nd::any();
        let rx = Rx { to: $to, msg: $m, app: $app, secured: $secured, fail: $fail };
        let (mut dev, mut tr) = (rx, rx);
        rctx!($r, dev, tr);
        unsafe { OPEN_OK = $fail != 3 };
        $r.common.session[1].setup(ID).unwrap();
        $r.common.session[1].set_session_state($st);
        $r.common.session[0].setup(0x1234).unwrap();
        $r.common.session[0].set_session_state(state());
    };
}
macro_rules! secured {
    ($st:ident, |$clear:ident, $code:ident| $fate:expr) => {{
        received!(r, m, SpdmSessionState::$st, true, false, 0, ID);
        let $clear = caps(r);
        let x = r.process_message(0, &[]);
        let $code = m[1];
        let fate: Fate = $fate;
        let o = call(0);
        assert!(o.what == 2 && o.session == Some(ID) && o.len == 8 && o.arg == 1, "opened by the session it names, as coming from its requester");
        let k = call(1);
        match fate {
            Serve => assert!(called() == 2 && k.what == $code && k.session == Some(ID) && k.len == 5 && k.probe == probe(&m), "served by the handler for that request, in that session"),
            Refuse(e) => assert!(called() == 2 && k.what == 1 && k.arg == e && k.session == Some(ID) && k.len == 5 && k.probe == probe(&m), "refused with that error, in that session"),
            Drop => assert!(called() == 1 && matches!(x, Ok(false)), "not answered"),
        }
        if fate != Drop {
            assert!(matches!(x, Ok(b) if b == k.ok), "the handler's outcome");
        }
        assert!(r.common.session[1].get_session_state() == SpdmSessionState::$st, "the session stays as it is");
        cover!(fate == Drop, "dropped");
        cover!(true, "done");
    }};
}
macro_rules! lost {
    ($fail:literal, $calls:literal, $to:expr) => {{
        received!(r, m, state(), true, false, $fail, $to);
        let x = r.process_message(0, &[]);
        assert!(x.is_err() && called() == $calls, "handed back, nothing served");
        cover!(true, "done");
    }};
}

harnesses! {
    /// Requests in the clear.
    /// @fns: ResponderContext::dispatch_message
    /// @cfg: small
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn in_the_clear() {
        rctx!(r);
        let clear = caps(r);
        r.common.session[1].setup(ID).unwrap();
        let st = state();
        r.common.session[1].set_session_state(st);
        let last = match nd::any::<u8>() { 0 => None, 1 => Some(ID), _ => Some(0x1234) };
        r.common.runtime_info.set_last_session_id(last);
        let m: [u8; 5] = nd::any();
        let x = r.dispatch_message(&m);
        let code = m[1];
        let finishing = clear && last == Some(ID) && st == SpdmSessionState::SpdmSessionHandshaking;
        let fate = match code {
            0x81..=0x84 | 0xE0 | 0xE1 | 0xE3 | 0xE4 | 0xE6 | 0xFE => Serve,
            0xE5 if finishing => Serve,
            _ => refuse(code),
        };
        check(x, code, if code == 0xE5 && finishing { last } else { None }, 5, probe(&m), fate);
        cover!(code == 0xE5 && finishing, "finish in the clear");
        cover!(fate == Refuse(UNSUPPORTED), "unsupported");
        cover!(fate == Drop, "dropped");
    }
    /// What is too short to be a message is not answered.
    /// @fns: ResponderContext::dispatch_message
    /// @cfg: small
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn in_the_clear_short() {
        rctx!(r);
        let m: [u8; 1] = nd::any();
        assert!(r.dispatch_message(&m).is_err() && r.dispatch_message(&[]).is_err() && called() == 0, "not a message");
        cover!(true, "done");
    }
    /// In the handshake of a session only what completes it, unless that goes in the clear.
    /// @fns: ResponderContext::process_message, ResponderContext::dispatch_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn handshaking() {
        secured!(SpdmSessionHandshaking, |clear, code| match code {
            _ if clear => Drop,
            0xE5 | 0xE7 | 0xEA | 0xEB | 0xFE => Serve,
            _ => refuse(code),
        })
    }
    /// In an established session only what SPDM allows there.
    /// @fns: ResponderContext::process_message, ResponderContext::dispatch_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn established() {
        secured!(SpdmSessionEstablished, |clear, code| match code {
            0x81 | 0x82 | 0xE0 | 0xE8 | 0xE9 | 0xEC | 0xFE => Serve,
            _ => refuse(code),
        })
    }
    /// @fns: ResponderContext::process_message, ResponderContext::dispatch_secured_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn not_started() { secured!(SpdmSessionNotStarted, |clear, code| Drop) }
    /// A message in the clear goes the same way when received.
    /// @fns: ResponderContext::process_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn received_in_the_clear() {
        received!(r, m, state(), false, false, 0, ID);
        nd::assume(m[1] != 0xE5);
        let x = r.process_message(0, &[]);
        let fate = match m[1] {
            0x81..=0x84 | 0xE0 | 0xE1 | 0xE3 | 0xE4 | 0xE6 | 0xFE => Serve,
            c => refuse(c),
        };
        check(if matches!(x, Ok(true)) { Ok(()) } else { Err(SPDM_STATUS_UNSUPPORTED_CAP) }, m[1], None, 5, probe(&m), fate);
        assert!(x.is_ok(), "taken");
        cover!(fate == Serve, "served");
    }
    /// Application data is handled only in an established session, and what the handler answers goes back in that
    /// session as application data.
    /// @fns: ResponderContext::process_message, ResponderContext::dispatch_secured_app_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stub(spdmlib::responder::app_message_handler::dispatch_secured_app_message_cb, crate::rec::app)]
    #[stub(spdmlib::responder::ResponderContext::send_secured_message, crate::rec::H::send_secured)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn application() {
        let st = state();
        received!(r, m, st, true, true, 0, ID);
        let x = r.process_message(0, &[]);
        let (o, a, s) = (call(0), call(1), call(2));
        assert!(o.what == 2 && o.session == Some(ID), "opened by the session it names");
        if st != SpdmSessionState::SpdmSessionEstablished {
            assert!(called() == 1 && matches!(x, Ok(false)), "only in an established session");
        } else {
            assert!(a.what == 4 && a.session == Some(ID) && a.len == 5 && a.probe == probe(&m), "handed to the application");
            assert!(if a.ok { called() == 3 && s.what == 5 && s.session == Some(ID) && s.arg == 1 && s.len == 9 && s.probe == a.arg as u8 } else { called() == 2 }, "what it answers is sent");
            assert!(matches!(x, Ok(b) if b == (a.ok && s.ok)), "outcome");
            cover!(!a.ok, "application fails");
        }
        cover!(s.what == 5, "answered");
    }
    /// @fns: ResponderContext::process_message, ResponderContext::receive_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn lost_receive() { lost!(1, 0, ID) }
    /// @fns: ResponderContext::process_message, ResponderContext::receive_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn lost_frame() { lost!(2, 0, ID) }
    /// What does not open is handed back.
    /// @fns: ResponderContext::process_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn lost_open() { lost!(3, 1, ID) }
    /// @fns: ResponderContext::process_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn lost_app_frame() { lost!(4, 1, ID) }
    /// A session that does not exist serves nothing.
    /// @fns: ResponderContext::process_message
    /// @cfg: small
    #[stub(spdmlib::common::session::SpdmSession::decode_spdm_secured_message, crate::rec::open)]
    #[stubs(request_handlers)]
    #[unwind(8)]
    fn lost_session() {
        let to: u32 = nd::any();
        nd::assume(to != ID && to != 0x1234);
        lost!(0, 0, to)
    }
}
