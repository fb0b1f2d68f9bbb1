//! Recorders standing for callees: what was called, with what, and an arbitrary outcome.
use crate::{nd, spy::probe};
use codec::{Codec, Reader, Writer};
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::responder::ResponderContext;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Call {
    pub what: u8,
    pub session: Option<u32>,
    pub len: usize,
    pub probe: u8,
    pub head: [u8; 4],
    pub arg: usize,
    pub ok: bool,
}
pub const CALL0: Call = Call { what: 0, session: None, len: 0, probe: 0, head: [0; 4], arg: 0, ok: true };
pub static mut CALLS: [Call; 20] = [CALL0; 20];
pub static mut CALL_N: usize = 0;
pub fn call(i: usize) -> Call {
    unsafe {
        if i < CALL_N {
            CALLS[i]
        } else {
            CALL0
        }
    }
}
fn scan(what: u8, k: usize) -> (usize, usize) {
    let (mut n, mut at) = (0, usize::MAX);
    macro_rules! look { ($($i:literal)*) => { $( if call($i).what == what {
        if n == k {
            at = $i;
        }
        n += 1;
    } )* } }
    look!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
    (n, at)
}
/// How often that was called.
pub fn times(what: u8) -> usize {
    scan(what, 0).0
}
/// Where the `k`th of those calls is.
pub fn nth(what: u8, k: usize) -> usize {
    let at = scan(what, k).1;
    assert!(at != usize::MAX, "it was called");
    at
}
/// Where the only one of those calls is.
pub fn only(what: u8) -> usize {
    let (n, at) = scan(what, 0);
    assert!(n == 1, "called once");
    at
}
pub fn called() -> usize {
    unsafe { CALL_N }
}
pub fn record(what: u8, session: Option<u32>, b: &[u8], arg: usize, ok: bool) {
    unsafe {
        assert!(CALL_N < 20, "bounded number of calls");
        let at = |i: usize| if i < b.len() { b[i] } else { 0 };
        CALLS[CALL_N] = Call { what, session, len: b.len(), probe: probe(b), head: [at(0), at(1), at(2), at(3)], arg, ok };
        CALL_N += 1;
    }
}
pub fn outcome(what: u8, session: Option<u32>, b: &[u8], arg: usize) -> SpdmResult {
    let ok = nd::any();
    record(what, session, b, arg, ok);
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_CRYPTO_ERROR)
    }
}

// ---------------------------------------------------- handlers of a responder
/// Methods of an impl with one lifetime parameter stand for methods of one.
pub struct H<'a>(core::marker::PhantomData<&'a ()>);
macro_rules! handlers {
    ($( $f:ident = $n:literal $k:ident; )*) => { impl<'a> H<'a> { $( handlers!(@ $f $n $k); )* } };
    (@ $f:ident $n:literal plain) => {
        pub fn $f(_c: &mut ResponderContext<'a>, b: &[u8]) -> SpdmResult { outcome($n, None, b, 0) }
    };
    (@ $f:ident $n:literal session) => {
        pub fn $f(_c: &mut ResponderContext<'a>, s: u32, b: &[u8]) -> SpdmResult { outcome($n, Some(s), b, 0) }
    };
    (@ $f:ident $n:literal maybe) => {
        pub fn $f(_c: &mut ResponderContext<'a>, s: Option<u32>, b: &[u8]) -> SpdmResult { outcome($n, s, b, 0) }
    };
    (@ $f:ident $n:literal maybe_last) => {
        pub fn $f(_c: &mut ResponderContext<'a>, b: &[u8], s: Option<u32>) -> SpdmResult { outcome($n, s, b, 0) }
    };
}
handlers! {
    version = 0x84 plain;
    capability = 0xE1 plain;
    algorithm = 0xE3 plain;
    digest = 0x81 maybe_last;
    certificate = 0x82 maybe_last;
    challenge = 0x83 plain;
    measurement = 0xE0 maybe;
    key_exchange = 0xE4 plain;
    finish = 0xE5 session;
    psk_exchange = 0xE6 plain;
    psk_finish = 0xE7 session;
    heartbeat = 0xE8 session;
    key_update = 0xE9 session;
    end_session = 0xEC session;
    vendor = 0xFE maybe;
    get_encap = 0xEA session;
    deliver_encap = 0xEB session;
}
impl<'a> H<'a> {
    pub fn error_request(_c: &mut ResponderContext<'a>, e: SpdmErrorCode, s: Option<u32>, b: &[u8]) -> SpdmResult {
        outcome(1, s, b, e.get_u8() as usize)
    }
}
/// Every request handler of a responder by contract.
#[macro_export]
macro_rules! request_handlers {
    ($($item:tt)*) => {
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_version, crate::rec::H::version))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_capability, crate::rec::H::capability))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_algorithm, crate::rec::H::algorithm))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_digest, crate::rec::H::digest))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_certificate, crate::rec::H::certificate))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_challenge, crate::rec::H::challenge))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_measurement, crate::rec::H::measurement))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_key_exchange, crate::rec::H::key_exchange))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_finish, crate::rec::H::finish))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_psk_exchange, crate::rec::H::psk_exchange))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_psk_finish, crate::rec::H::psk_finish))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_heartbeat, crate::rec::H::heartbeat))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_key_update, crate::rec::H::key_update))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_end_session, crate::rec::H::end_session))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_spdm_vendor_defined_request, crate::rec::H::vendor))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_get_encapsulated_request, crate::rec::H::get_encap))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_deliver_encapsulated_reponse, crate::rec::H::deliver_encap))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::handle_error_request, crate::rec::H::error_request))]
        $($item)*
    };
}

// ------------------------------------------------------------------ sessions
pub static mut OPEN_OK: bool = true;
/// Opening a secured message (contract discharged in P07): six bytes, or an error.
pub fn open(s: &mut spdmlib::common::session::SpdmSession, b: &[u8], _o: &mut [u8], req: bool) -> SpdmResult<usize> {
    let ok = unsafe { OPEN_OK };
    record(2, Some(s.get_session_id()), b, req as usize, ok);
    if ok {
        Ok(6)
    } else {
        Err(SPDM_STATUS_CRYPTO_ERROR)
    }
}
/// The application's handler: nine bytes whose content at the probe is recorded, or an error.
pub fn app(_c: &mut ResponderContext, s: u32, b: &[u8], _aux: &[u8]) -> SpdmResult<([u8; spdmlib::config::MAX_SPDM_MSG_SIZE], usize)> {
    let (ok, x): (bool, u8) = (nd::any(), nd::any());
    let mut out = [0u8; spdmlib::config::MAX_SPDM_MSG_SIZE];
    let p = unsafe { crate::spy::PROBE };
    if p < 9 {
        out[p] = x;
    }
    record(4, Some(s), b, probe(&out[..9]) as usize, ok);
    if ok {
        Ok((out, 9))
    } else {
        Err(SPDM_STATUS_CRYPTO_ERROR)
    }
}
impl<'a> H<'a> {
    pub fn send_secured(_c: &mut ResponderContext<'a>, s: u32, b: &[u8], is_app: bool) -> SpdmResult {
        outcome(5, Some(s), b, is_app as usize)
    }
}

// --------------------------------------------- transcripts (contracts: P11)
use spdmlib::common::SpdmContext;
/// Which call fails: what, and which of those; (0, 0) none.
pub static mut FAIL: (u8, u8) = (0, 0);
pub const NO: (u8, u8) = (0, 0);
static mut SEEN: [u8; 64] = [0; 64];
pub fn appended(what: u8, s: Option<u32>, b: &[u8]) -> SpdmResult {
    appended_by(what, s, b, 0)
}
pub fn appended_by(what: u8, s: Option<u32>, b: &[u8], arg: usize) -> SpdmResult {
    let ok = unsafe {
        SEEN[what as usize] += 1;
        FAIL.0 != what || FAIL.1 + 1 != SEEN[what as usize]
    };
    record(what, s, b, arg, ok);
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_BUFFER_FULL)
    }
}
pub const APPEND_A: u8 = 20;
pub const APPEND_B: u8 = 21;
pub const APPEND_C: u8 = 22;
pub const APPEND_M: u8 = 23;
pub const APPEND_K: u8 = 24;
pub const APPEND_F: u8 = 25;
pub const RESET_ALL: u8 = 30;
pub const RESET_VIA: u8 = 31;
pub const RESET_B: u8 = 32;
pub const RESET_C: u8 = 33;
pub const RESET_M: u8 = 34;
impl<'a> H<'a> {
    pub fn append_a(_c: &mut SpdmContext<'a>, b: &[u8]) -> SpdmResult {
        appended(APPEND_A, None, b)
    }
    pub fn append_b(_c: &mut SpdmContext<'a>, b: &[u8]) -> SpdmResult {
        appended(APPEND_B, None, b)
    }
    pub fn append_c(_c: &mut SpdmContext<'a>, b: &[u8]) -> SpdmResult {
        appended(APPEND_C, None, b)
    }
    pub fn append_m(_c: &mut SpdmContext<'a>, s: Option<u32>, b: &[u8]) -> SpdmResult {
        appended(APPEND_M, s, b)
    }
    pub fn append_k(_c: &mut SpdmContext<'a>, s: u32, b: &[u8]) -> SpdmResult {
        appended(APPEND_K, Some(s), b)
    }
    pub fn append_f(_c: &mut SpdmContext<'a>, requester: bool, s: u32, b: &[u8]) -> SpdmResult {
        appended_by(APPEND_F, Some(s), b, requester as usize)
    }
    pub fn reset_b(_c: &mut SpdmContext<'a>) {
        record(RESET_B, None, &[], 0, true)
    }
    pub fn reset_c(_c: &mut SpdmContext<'a>) {
        record(RESET_C, None, &[], 0, true)
    }
    pub fn reset_m(_c: &mut SpdmContext<'a>, s: Option<u32>) {
        record(RESET_M, s, &[], 0, true)
    }
    pub fn reset_all(_c: &mut SpdmContext<'a>) {
        record(RESET_ALL, None, &[], 0, true)
    }
    pub fn reset_via(_c: &mut SpdmContext<'a>, code: SpdmRequestResponseCode, s: Option<u32>) {
        record(RESET_VIA, s, &[], code.get_u8() as usize, true)
    }
}
/// Appending to and resetting transcripts by contract.
#[macro_export]
macro_rules! transcripts {
    ($($item:tt)*) => {
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::append_message_a, crate::rec::H::append_a))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::append_message_b, crate::rec::H::append_b))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::append_message_c, crate::rec::H::append_c))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::append_message_m, crate::rec::H::append_m))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::append_message_k, crate::rec::H::append_k))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::append_message_f, crate::rec::H::append_f))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::reset_message_b, crate::rec::H::reset_b))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::reset_message_c, crate::rec::H::reset_c))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::reset_message_m, crate::rec::H::reset_m))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::reset_context, crate::rec::H::reset_all))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::reset_buffer_via_request_code, crate::rec::H::reset_via))]
        $($item)*
    };
}
pub fn is_call(i: usize, what: u8, s: Option<u32>, b: &[u8]) -> bool {
    let k = call(i);
    k.what == what && k.session == s && k.len == b.len() && k.probe == probe(b)
}
pub const CHAIN: u8 = 40;
impl<'a> H<'a> {
    /// `construct_my_cert_chain` (contract discharged in P16).
    pub fn construct_chain(_c: &mut SpdmContext<'a>) -> SpdmResult {
        appended(CHAIN, None, &[])
    }
}
/// A payload that is not there.
macro_rules! absent { ($($f:ident $t:ty),*) => { $( pub fn $f(_c: &mut SpdmContext, _r: &mut Reader) -> Option<$t> { None } )* } }
absent!(none_version_rsp SpdmVersionResponsePayload, none_capabilities_rsp SpdmCapabilitiesResponsePayload, none_algorithms_rsp SpdmAlgorithmsResponsePayload, none_digests_rsp SpdmDigestsResponsePayload, none_certificate_rsp SpdmCertificateResponsePayload, none_challenge_rsp SpdmChallengeAuthResponsePayload, none_measurements_rsp SpdmMeasurementsResponsePayload, none_key_exchange_rsp SpdmKeyExchangeResponsePayload, none_finish_rsp SpdmFinishResponsePayload, none_psk_exchange_rsp SpdmPskExchangeResponsePayload, none_psk_finish_rsp SpdmPskFinishResponsePayload);
absent!(none_algorithms SpdmNegotiateAlgorithmsRequestPayload, none_challenge SpdmChallengeRequestPayload, none_certificate SpdmGetCertificateRequestPayload, none_measurements SpdmGetMeasurementsRequestPayload, none_key_exchange SpdmKeyExchangeRequestPayload, none_finish SpdmFinishRequestPayload, none_psk_exchange SpdmPskExchangeRequestPayload, none_psk_finish SpdmPskFinishRequestPayload);
// ------------------------------------------------------------- sending
pub const SENT: u8 = 6;
impl<'a> H<'a> {
    pub fn send_clear(_c: &mut ResponderContext<'a>, b: &[u8]) -> SpdmResult {
        outcome(SENT, None, b, 0)
    }
    pub fn send_session(_c: &mut ResponderContext<'a>, s: u32, b: &[u8], app: bool) -> SpdmResult {
        outcome(SENT, Some(s), b, app as usize)
    }
}
/// Transcripts and sending by contract.
#[macro_export]
macro_rules! responses {
    ($($item:tt)*) => {
        transcripts! {
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::send_message, crate::rec::H::send_clear))]
        #[cfg_attr(kani, kani::stub(spdmlib::responder::ResponderContext::send_secured_message, crate::rec::H::send_session))]
        $($item)*
        }
    };
}
/// Call `i` was made with exactly `len` bytes, byte `k` of which is `f(k)`.
pub fn is_bytes(i: usize, what: u8, s: Option<u32>, len: usize, f: impl Fn(usize) -> u8) -> bool {
    let k = call(i);
    let p = unsafe { crate::spy::PROBE };
    k.what == what && k.session == s && k.len == len && (p >= len || k.probe == f(p))
}
/// The response sent is this ERROR alone.
pub fn sent_error(i: usize, s: Option<u32>, v: u8, code: u8) -> bool {
    is_bytes(i, SENT, s, 4, |p| [v, 0x7F, code, 0][p]) && call(i).arg == 0
}

// ------------------------------------------------- device secrets, randomness
use spdmlib::protocol::*;
pub const SIGN: u8 = 50;
pub const SUMMARY: u8 = 51;
pub const COLLECT: u8 = 52;
pub const RAND: u8 = 53;
pub const VERIFY: u8 = 54;
pub const ROOT: u8 = 55;
pub const CHECK_CHAIN: u8 = 56;
/// What they answer: arbitrary bytes.
pub static mut SIG: [u8; 96] = [0; 96];
pub static mut RND: [u8; 32] = [0; 32];
pub static mut SUM: [u8; 32] = [0; 32];
pub static mut ROOT_AT: (usize, usize) = (0, 0);
fn sign_cb(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, d: &[u8]) -> Option<SpdmSignatureStruct> {
    appended_by(SIGN, None, d, (h.bits() << 16 | a.bits()) as usize).ok()?;
    let mut data = [0u8; SPDM_MAX_ASYM_KEY_SIZE];
    unsafe { data[..96].copy_from_slice(&SIG) };
    Some(SpdmSignatureStruct { data_size: a.get_size(), data })
}
fn summary_cb(_v: SpdmVersion, h: SpdmBaseHashAlgo, s: SpdmMeasurementSpecification, m: SpdmMeasurementHashAlgo, t: SpdmMeasurementSummaryHashType) -> Option<SpdmDigestStruct> {
    appended_by(SUMMARY, None, &[s.bits(), m.bits() as u8, t.get_u8()], h.bits() as usize).ok()?;
    let mut data = Box::new([0u8; SPDM_MAX_HASH_SIZE]);
    unsafe { data[..32].copy_from_slice(&SUM) };
    Some(SpdmDigestStruct { data_size: h.get_size(), data })
}
pub static mut BLOCKS: u8 = 0;
pub static mut RECORD: [u8; 16] = [0; 16];
pub static mut RECORD_LEN: usize = 0;
fn collect_cb(v: SpdmVersion, s: SpdmMeasurementSpecification, m: SpdmMeasurementHashAlgo, i: usize) -> Option<SpdmMeasurementRecordStructure> {
    appended_by(COLLECT, None, &[v.get_u8(), s.bits(), m.bits() as u8], i).ok()?;
    unsafe {
        let mut r = SpdmMeasurementRecordStructure::default();
        r.number_of_blocks = BLOCKS;
        r.measurement_record_length = codec::u24::new(RECORD_LEN as u32);
        r.measurement_record_data[..16].copy_from_slice(&RECORD);
        Some(r)
    }
}
fn rand_cb(d: &mut [u8]) -> SpdmResult<usize> {
    appended(RAND, None, d)?;
    assert!(d.len() <= 32, "bounded");
    unsafe { d.copy_from_slice(&RND[..d.len()]) };
    Ok(d.len())
}
fn root_cb(d: &[u8], i: isize) -> SpdmResult<(usize, usize)> {
    appended_by(ROOT, None, d, i as usize)?;
    unsafe { Ok(ROOT_AT) }
}
fn chain_cb(d: &[u8]) -> SpdmResult {
    appended(CHECK_CHAIN, None, d)
}
pub static mut VERIFY_KEY: (usize, u8) = (0, 0);
pub static mut VERIFY_SIG: (u16, u8) = (0, 0);
fn verify_cb(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, key: &[u8], d: &[u8], s: &SpdmSignatureStruct) -> SpdmResult {
    unsafe {
        VERIFY_KEY = (key.len(), probe(key));
        VERIFY_SIG = (s.data_size, probe(&s.data[..]));
    }
    appended_by(VERIFY, None, d, (h.bits() << 16 | a.bits()) as usize)
}
/// What is signed: the prefix of SPDM 1.2, the purpose, the hash of the transcript.
pub fn signed(p: usize, purpose: &[u8; 36], digest: u32) -> u8 {
    match p {
        0..=63 => b"dmtf-spdm-v1.2.*"[p % 16],
        64..=99 => purpose[p - 64],
        _ => bytes_of(digest)[p - 100],
    }
}
pub fn install_sign() {
    spdmlib::secret::asym_sign::register(spdmlib::secret::SpdmSecretAsymSign { sign_cb });
    unsafe { SIG = nd::any() }
}
pub fn install_measurements() {
    spdmlib::secret::measurement::register(spdmlib::secret::SpdmSecretMeasurement { measurement_collection_cb: collect_cb, generate_measurement_summary_hash_cb: summary_cb });
    unsafe {
        SUM = nd::any();
        RECORD = nd::any();
    }
}
pub fn install_random() {
    spdmlib::crypto::rand::register(spdmlib::crypto::SpdmCryptoRandom { get_random_cb: rand_cb });
    unsafe { RND = nd::any() }
}
pub fn install_certs() {
    spdmlib::crypto::cert_operation::register(spdmlib::crypto::SpdmCertOperation { get_cert_from_cert_chain_cb: root_cb, verify_cert_chain_cb: chain_cb });
}
pub fn install_verify() {
    spdmlib::crypto::asym_verify::register(spdmlib::crypto::SpdmAsymVerify { verify_cb });
}

// ---------------------------------------- sessions (contracts: P06, P08, P11)
use spdmlib::common::session::SpdmSession;
pub const DHE_SECRET: u8 = 57;
pub const HANDSHAKE: u8 = 58;
pub const DATA: u8 = 59;
pub const GEN_MAC: u8 = 60;
pub const VERIFY_HMAC: u8 = 61;
pub const DHE: u8 = 62;
pub const DHE_FINAL: u8 = 63;
/// Number of bytes sequences a session's transcript holds so far.
pub fn appended_kf() -> u32 {
    unsafe { (SEEN[APPEND_K as usize] + SEEN[APPEND_F as usize]) as u32 }
}
/// The digest of a session's transcript of `n` parts.
pub fn th(n: u32) -> u32 {
    digest_tag(0x2000 + n as usize)
}
fn digest32(tag: u32) -> SpdmDigestStruct {
    SpdmDigestStruct { data_size: 32, data: Box::new(bytes_of(tag)) }
}
use crate::spy::{bytes_of, digest_tag};
/// What the transcript hash was asked for: PSK, slot, mutual authentication.
pub static mut TH_ARGS: (bool, u8, bool) = (false, 0, false);
pub static mut TH_FAIL: isize = -1;
pub static mut TH_N: isize = 0;
impl<'a> H<'a> {
    pub fn transcript_hash(_c: &SpdmContext<'a>, psk: bool, slot: u8, mutual: bool, _s: &SpdmSession) -> SpdmResult<SpdmDigestStruct> {
        unsafe {
            TH_ARGS = (psk, slot, mutual);
            TH_N += 1;
            if TH_FAIL == TH_N - 1 {
                return Err(SPDM_STATUS_CRYPTO_ERROR);
            }
        }
        Ok(digest32(th(appended_kf())))
    }
}
pub fn set_dhe_secret(s: &mut SpdmSession, v: SpdmVersion, k: SpdmDheFinalKeyStruct) -> SpdmResult {
    appended_by(DHE_SECRET, Some(s.get_session_id()), k.as_ref(), v.get_u8() as usize)
}
pub fn handshake_secret(s: &mut SpdmSession, v: SpdmVersion, h: &SpdmDigestStruct) -> SpdmResult {
    appended_by(HANDSHAKE, Some(s.get_session_id()), h.as_ref(), v.get_u8() as usize)
}
pub fn data_secret(s: &mut SpdmSession, v: SpdmVersion, h: &SpdmDigestStruct) -> SpdmResult {
    appended_by(DATA, Some(s.get_session_id()), h.as_ref(), v.get_u8() as usize)
}
pub static mut MAC: [u8; 32] = [0; 32];
pub fn hmac(s: &SpdmSession, b: &[u8]) -> SpdmResult<SpdmDigestStruct> {
    appended(GEN_MAC, Some(s.get_session_id()), b)?;
    let mut data = Box::new([0u8; SPDM_MAX_HASH_SIZE]);
    unsafe { data[..32].copy_from_slice(&MAC) };
    Ok(SpdmDigestStruct { data_size: 32, data })
}
pub static mut VERIFY_MAC: (u16, u8) = (0, 0);
pub fn verify_hmac(s: &SpdmSession, b: &[u8], m: &SpdmDigestStruct) -> SpdmResult {
    unsafe { VERIFY_MAC = (m.data_size, probe(m.as_ref())) };
    appended(VERIFY_HMAC, Some(s.get_session_id()), b)
}
use spdmlib::common::opaque::*;
/// How many secured message versions the peer's opaque data lists (1.0 and 1.1, in this order); 0: no such list.
pub static mut VERSIONS: u8 = 0;
/// `rsp_get_dmtf_supported_secure_spdm_version_list` (contract discharged in P23).
pub fn version_list(_o: &SpdmOpaqueStruct, _c: &mut SpdmContext) -> Option<SecuredMessageVersionList> {
    let v = |minor_version| SecuredMessageVersion { major_version: 1, minor_version, update_version_number: 0, alpha: 0 };
    match unsafe { VERSIONS } {
        0 => None,
        version_count => Some(SecuredMessageVersionList { version_count, versions_list: [v(0), v(1)] }),
    }
}
/// Session keys by contract, for the responder.
#[macro_export]
macro_rules! session_keys {
    ($($item:tt)*) => {
        responses! {
        #[cfg_attr(kani, kani::stub(spdmlib::common::opaque::SpdmOpaqueStruct::rsp_get_dmtf_supported_secure_spdm_version_list, crate::rec::version_list))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::set_dhe_secret, crate::rec::set_dhe_secret))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::generate_handshake_secret, crate::rec::handshake_secret))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::generate_data_secret, crate::rec::data_secret))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::generate_hmac_with_response_finished_key, crate::rec::hmac))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::verify_hmac_with_request_finished_key, crate::rec::verify_hmac))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::calc_rsp_transcript_hash, crate::rec::H::transcript_hash))]
        $($item)*
        }
    };
}
pub static mut PUBLIC: [u8; 64] = [0; 64];
pub static mut SHARED: [u8; 32] = [0; 32];
struct Private;
impl spdmlib::crypto::SpdmDheKeyExchange for Private {
    fn compute_final_key(self: Box<Self>, p: &SpdmDheExchangeStruct) -> Option<SpdmDheFinalKeyStruct> {
        appended(DHE_FINAL, None, p.as_ref()).ok()?;
        let mut data = Box::new([0u8; SPDM_MAX_DHE_KEY_SIZE]);
        unsafe { data[..32].copy_from_slice(&SHARED) };
        Some(SpdmDheFinalKeyStruct { data_size: 32, data })
    }
}
fn dhe_cb(a: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn spdmlib::crypto::SpdmDheKeyExchange>)> {
    appended_by(DHE, None, &[], a.bits() as usize).ok()?;
    let mut data = [0u8; SPDM_MAX_DHE_KEY_SIZE];
    unsafe { data[..64].copy_from_slice(&PUBLIC) };
    Some((SpdmDheExchangeStruct { data_size: 64, data }, Box::new(Private)))
}
pub fn install_dhe() {
    spdmlib::crypto::dhe::register(spdmlib::crypto::SpdmDhe { generate_key_pair_cb: dhe_cb });
    unsafe {
        PUBLIC = nd::any();
        SHARED = nd::any();
        MAC = nd::any();
    }
}

// ------------------------------------------------- a requester's exchanges
use spdmlib::requester::RequesterContext;
pub const RECEIVED: u8 = 7;
/// What the responder answers.
pub static mut ANS: [u8; 320] = [0; 320];
pub static mut ANS_LEN: usize = 0;
fn answer(b: &mut [u8]) -> SpdmResult<usize> {
    unsafe {
        b[..ANS_LEN].copy_from_slice(&ANS[..ANS_LEN]);
        Ok(ANS_LEN)
    }
}
impl<'a> H<'a> {
    pub fn q_send(_c: &mut RequesterContext<'a>, b: &[u8]) -> SpdmResult {
        appended(SENT, None, b)
    }
    pub fn q_send_session(_c: &mut RequesterContext<'a>, s: u32, b: &[u8], app: bool) -> SpdmResult {
        appended_by(SENT, Some(s), b, app as usize)
    }
    pub fn q_receive(_c: &mut RequesterContext<'a>, b: &mut [u8], crypto: bool) -> SpdmResult<usize> {
        appended_by(RECEIVED, None, &[], crypto as usize)?;
        answer(b)
    }
    pub fn q_receive_session(_c: &mut RequesterContext<'a>, s: u32, b: &mut [u8], crypto: bool) -> SpdmResult<usize> {
        appended_by(RECEIVED, Some(s), &[], crypto as usize)?;
        answer(b)
    }
}
/// The first `N` bytes of the answer.
pub fn ans<const N: usize>(b: [u8; N], len: usize) {
    unsafe {
        ANS[..N].copy_from_slice(&b);
        ANS_LEN = len;
    }
}
/// Call `i` was made with the first `n` bytes of the answer.
pub fn is_ans(i: usize, what: u8, s: Option<u32>, n: usize) -> bool {
    is_bytes(i, what, s, n, |p| unsafe { ANS[p] })
}
/// Transcripts, sending and receiving of a requester by contract.
#[macro_export]
macro_rules! requests {
    ($($item:tt)*) => {
        transcripts! {
        #[cfg_attr(kani, kani::stub(spdmlib::requester::RequesterContext::send_message, crate::rec::H::q_send))]
        #[cfg_attr(kani, kani::stub(spdmlib::requester::RequesterContext::send_secured_message, crate::rec::H::q_send_session))]
        #[cfg_attr(kani, kani::stub(spdmlib::requester::RequesterContext::receive_message, crate::rec::H::q_receive))]
        #[cfg_attr(kani, kani::stub(spdmlib::requester::RequesterContext::receive_secured_message, crate::rec::H::q_receive_session))]
        $($item)*
        }
    };
}
/// The secured message version the answer selects: 1.0 or 1.1 (0x10, 0x11); 0: none.
pub static mut SELECTED: u8 = 0;
/// `req_get_dmtf_secure_spdm_version_selection` (contract discharged in P23).
pub fn version_selection(_o: &SpdmOpaqueStruct, _c: &mut SpdmContext) -> Option<SecuredMessageVersion> {
    match unsafe { SELECTED } {
        0 => None,
        v => Some(SecuredMessageVersion { major_version: v >> 4, minor_version: v & 15, update_version_number: 0, alpha: 0 }),
    }
}
/// Session keys by contract, for the requester.
#[macro_export]
macro_rules! requester_keys {
    ($($item:tt)*) => {
        requests! {
        #[cfg_attr(kani, kani::stub(spdmlib::common::opaque::SpdmOpaqueStruct::req_get_dmtf_secure_spdm_version_selection, crate::rec::version_selection))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::set_dhe_secret, crate::rec::set_dhe_secret))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::generate_handshake_secret, crate::rec::handshake_secret))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::generate_data_secret, crate::rec::data_secret))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::generate_hmac_with_request_finished_key, crate::rec::hmac))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::session::SpdmSession::verify_hmac_with_response_finished_key, crate::rec::verify_hmac))]
        #[cfg_attr(kani, kani::stub(spdmlib::common::SpdmContext::calc_req_transcript_hash, crate::rec::H::transcript_hash))]
        $($item)*
        }
    };
}
