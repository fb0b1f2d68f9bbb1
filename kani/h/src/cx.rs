//! A context around the code under test: devices that do nothing, no provisioned data.
use core::mem::ManuallyDrop;
use spdmlib::common::*;
use spdmlib::error::*;

pub struct Dev;
impl SpdmDeviceIo for Dev {
    fn send(&mut self, _b: &[u8]) -> SpdmResult {
        Ok(())
    }
    fn receive(&mut self, _b: &mut [u8], _t: usize) -> Result<usize, usize> {
        Err(0)
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
pub struct Tr;
impl SpdmTransportEncap for Tr {
    fn encap(&mut self, _s: &[u8], _t: &mut [u8], _m: bool) -> SpdmResult<usize> {
        Err(SPDM_STATUS_ENCAP_FAIL)
    }
    fn decap(&mut self, _t: &[u8], _s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        Err(SPDM_STATUS_DECAP_FAIL)
    }
    fn encap_app(&mut self, _s: &[u8], _a: &mut [u8], _m: bool) -> SpdmResult<usize> {
        Err(SPDM_STATUS_ENCAP_APP_FAIL)
    }
    fn decap_app(&mut self, _a: &[u8], _s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        Err(SPDM_STATUS_DECAP_APP_FAIL)
    }
    fn get_sequence_number_count(&mut self) -> u8 {
        0
    }
    fn get_max_random_count(&mut self) -> u16 {
        0
    }
}

pub fn le16(b: &[u8]) -> u16 {
    b[0] as u16 | (b[1] as u16) << 8
}
pub fn le32(b: &[u8]) -> u32 {
    b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
}

/// `ctx!(c)`: a fresh context `c: &mut SpdmContext`, never dropped.
#[macro_export]
macro_rules! ctx {
    ($c:ident) => {
        let (mut dev, mut tr) = ($crate::cx::Dev, $crate::cx::Tr);
        ctx!($c, dev, tr);
    };
    ($c:ident, $d:ident, $t:ident) => {
        let mut context = core::mem::ManuallyDrop::new(spdmlib::common::SpdmContext {
            device_io: &mut $d,
            transport_encap: &mut $t,
            config_info: spdmlib::common::SpdmConfigInfo::default(),
            negotiate_info: spdmlib::common::SpdmNegotiateInfo::default(),
            runtime_info: spdmlib::common::SpdmRuntimeInfo::default(),
            provision_info: spdmlib::common::SpdmProvisionInfo::default(),
            peer_info: spdmlib::common::SpdmPeerInfo::default(),
            encap_context: spdmlib::common::SpdmEncapContext::default(),
            session: [spdmlib::common::session::SpdmSession::new(), spdmlib::common::session::SpdmSession::new()],
        });
        let $c: &mut spdmlib::common::SpdmContext = &mut context;
    };
}

/// `rctx!(r)`: a fresh responder `r: &mut ResponderContext`, never dropped; `PROBE` arbitrary.
#[macro_export]
macro_rules! rctx {
    ($r:ident) => {
        let (mut dev, mut tr) = ($crate::cx::Dev, $crate::cx::Tr);
        rctx!($r, dev, tr);
    };
    ($r:ident, $d:ident, $t:ident) => {
        unsafe { $crate::spy::PROBE = $crate::nd::any() };
        let mut rc = core::mem::ManuallyDrop::new(spdmlib::responder::ResponderContext {
            common: spdmlib::common::SpdmContext {
                device_io: &mut $d,
                transport_encap: &mut $t,
                config_info: spdmlib::common::SpdmConfigInfo::default(),
                negotiate_info: spdmlib::common::SpdmNegotiateInfo::default(),
                runtime_info: spdmlib::common::SpdmRuntimeInfo::default(),
                provision_info: spdmlib::common::SpdmProvisionInfo::default(),
                peer_info: spdmlib::common::SpdmPeerInfo::default(),
                encap_context: spdmlib::common::SpdmEncapContext::default(),
                session: [spdmlib::common::session::SpdmSession::new(), spdmlib::common::session::SpdmSession::new()],
            },
        });
        let $r: &mut spdmlib::responder::ResponderContext = &mut rc;
    };
}

/// `qctx!(q)`: a fresh requester `q: &mut RequesterContext`, never dropped; `PROBE` arbitrary.
#[macro_export]
macro_rules! qctx {
    ($q:ident) => {
        let (mut dev, mut tr) = ($crate::cx::Dev, $crate::cx::Tr);
        qctx!($q, dev, tr);
    };
    ($q:ident, $d:ident, $t:ident) => {
        unsafe { $crate::spy::PROBE = $crate::nd::any() };
        let mut qc = core::mem::ManuallyDrop::new(spdmlib::requester::RequesterContext {
            common: spdmlib::common::SpdmContext {
                device_io: &mut $d,
                transport_encap: &mut $t,
                config_info: spdmlib::common::SpdmConfigInfo::default(),
                negotiate_info: spdmlib::common::SpdmNegotiateInfo::default(),
                runtime_info: spdmlib::common::SpdmRuntimeInfo::default(),
                provision_info: spdmlib::common::SpdmProvisionInfo::default(),
                peer_info: spdmlib::common::SpdmPeerInfo::default(),
                encap_context: spdmlib::common::SpdmEncapContext::default(),
                session: [spdmlib::common::session::SpdmSession::new(), spdmlib::common::session::SpdmSession::new()],
            },
        });
        let $q: &mut spdmlib::requester::RequesterContext = &mut qc;
    };
}

// ------------------------------------------------------- recording transport
/// What the transport and device were asked to do, in order; content at `PROBE` and the first four bytes.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Io {
    /// 1 encap, 2 decap, 3 encap_app, 4 decap_app, 5 device send, 6 device receive, 7 seal, 8 open
    pub op: u8,
    pub len: usize,
    pub probe: u8,
    pub head: [u8; 4],
    pub flag: bool,
    pub id: u32,
}
pub const IO0: Io = Io { op: 0, len: 0, probe: 0, head: [0; 4], flag: false, id: 0 };
pub static mut IO: [Io; 12] = [IO0; 12];
pub static mut IO_N: usize = 0;
/// Which of these calls fails (index into the log), -1 none.
pub static mut IO_FAIL: isize = -1;
/// What decap says about the frame received.
pub static mut SECURED: bool = false;
/// The (unframed) message the device delivers.
pub static mut RX: [u8; 96] = [0; 96];
pub static mut RX_LEN: usize = 0;
pub fn io(i: usize) -> Io {
    unsafe {
        if i < IO_N {
            IO[i]
        } else {
            IO0
        }
    }
}
pub fn io_call(op: u8, d: &[u8], flag: bool, id: u32) -> bool {
    unsafe {
        assert!(IO_N < 12, "bounded number of transport calls");
        let at = |i: usize| if i < d.len() { d[i] } else { 0 };
        IO[IO_N] = Io { op, len: d.len(), probe: crate::spy::probe(d), head: [at(0), at(1), at(2), at(3)], flag, id };
        IO_N += 1;
        IO_FAIL != IO_N as isize - 1
    }
}
/// The bytes stage `k` of the log puts out (an arbitrary function of nothing else): one probed byte is enough.
pub static mut STAGE: [u8; 12] = [0; 12];
fn put(dst: &mut [u8], n: usize) -> usize {
    unsafe {
        STAGE[IO_N - 1] = crate::nd::any();
        if crate::spy::PROBE < n {
            dst[crate::spy::PROBE] = STAGE[IO_N - 1];
        }
    }
    n
}
/// Transport whose output is arbitrary: lengths 11 (encap), 7 (encap_app), RX_LEN (decap), 5 (decap_app).
pub struct Stages;
impl SpdmTransportEncap for Stages {
    fn encap(&mut self, s: &[u8], t: &mut [u8], m: bool) -> SpdmResult<usize> {
        if io_call(1, s, m, 0) { Ok(put(t, 11)) } else { Err(SPDM_STATUS_ENCAP_FAIL) }
    }
    fn decap(&mut self, t: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        if io_call(2, t, false, 0) { Ok((put(s, 9), unsafe { SECURED })) } else { Err(SPDM_STATUS_DECAP_FAIL) }
    }
    fn encap_app(&mut self, s: &[u8], a: &mut [u8], m: bool) -> SpdmResult<usize> {
        if io_call(3, s, m, 0) { Ok(put(a, 7)) } else { Err(SPDM_STATUS_ENCAP_APP_FAIL) }
    }
    fn decap_app(&mut self, a: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        if io_call(4, a, false, 0) { Ok((put(s, 5), crate::nd::any())) } else { Err(SPDM_STATUS_DECAP_APP_FAIL) }
    }
    fn get_sequence_number_count(&mut self) -> u8 {
        2
    }
    fn get_max_random_count(&mut self) -> u16 {
        0
    }
}
/// A device that records what is sent.
pub struct Out;
impl SpdmDeviceIo for Out {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        if io_call(5, b, false, 0) { Ok(()) } else { Err(SPDM_STATUS_SEND_FAIL) }
    }
    fn receive(&mut self, _b: &mut [u8], _t: usize) -> Result<usize, usize> {
        Err(0)
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
/// Contract of sealing and opening (discharged in P07): some bytes of the session, or an error.
pub fn seal(s: &mut spdmlib::common::session::SpdmSession, b: &[u8], o: &mut [u8], req: bool) -> SpdmResult<usize> {
    if io_call(7, b, req, s.get_session_id()) { Ok(put(o, 10)) } else { Err(SPDM_STATUS_CRYPTO_ERROR) }
}
pub fn open(s: &mut spdmlib::common::session::SpdmSession, b: &[u8], o: &mut [u8], req: bool) -> SpdmResult<usize> {
    if io_call(8, b, req, s.get_session_id()) { Ok(put(o, 8)) } else { Err(SPDM_STATUS_CRYPTO_ERROR) }
}
