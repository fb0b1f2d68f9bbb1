//! P07: secured messages.
//! @level proof
//! @assume AEAD callbacks fill exactly the buffers given and report their sizes, or fail (arbitrary bytes otherwise)
//! @assume the transport announces at most 8 sequence number bytes (MCTP announces 2, PCI-DOE 0)
use crate::{nd, spy::*};
use core::mem::ManuallyDrop;
use spdmlib::common::session::*;
use spdmlib::error::*;
use spdmlib::protocol::*;

const APP: usize = 4;
const OUT: usize = 6 + 8 + 2 + APP + 16;

/// Everything an encode must do, for one direction of one state.
macro_rules! encode {
    ($established:literal, $req:literal, $secret:expr, $count:expr) => {{
        install_free_kdf();
        install_aead();
        let (id, count): (u32, u8) = (nd::any(), $count);
        nd::assume(count <= 8 && id != 0);
        let algo = aead_algo();
        let mut s = ManuallyDrop::new(session(id, algo, count, !$established, $established));
        let (rs, ps): (u64, u64) = if $established { (nd::any(), nd::any()) } else { (0, 0) };
        if $established {
            s.set_request_direction_sequence_number(rs);
            s.set_response_direction_sequence_number(ps);
        }
        s.set_session_state(if $established { SpdmSessionState::SpdmSessionEstablished } else { SpdmSessionState::SpdmSessionHandshaking });
        let app: [u8; APP] = nd::any();
        let (n, m): (usize, usize) = (nd::any(), nd::any());
        nd::assume(n <= APP && m <= OUT);
        let mut out = [0u8; OUT];
        let seq = if $req { rs } else { ps };
        let r = s.encode_spdm_secured_message(&app[..n], &mut out[..m], $req);
        let head = 6 + count as usize;
        let total = head + 2 + n + 16;
        cover!(r.is_ok(), "secured");
        cover!(r.is_err(), "refused");
        unsafe {
            match r {
                Ok(k) => {
                    assert!(seq != u64::MAX, "the last sequence number is never used");
                    assert!(k == total && total <= m, "size is header, length, message and tag");
                    assert!(AEAD.n == 1 && AEAD.ok && AEAD.algo == algo.bits(), "encrypted once");
                    assert!(AEAD.key == t($secret, L_KEY), "with the key of this direction and phase");
                    assert!(AEAD.iv == nonce($secret, seq), "under a nonce made of its IV and the sequence number");
                    // associated data
                    assert!(AEAD.aad_len == head, "associated data size");
                    let i: usize = nd::any();
                    nd::assume(i < head);
                    let l = ((2 + n + 16) as u16).to_le_bytes();
                    let e = if i < 4 { id.to_le_bytes()[i] } else if i < 4 + count as usize { seq.to_le_bytes()[i - 4] } else { l[i + 2 - head] };
                    assert!(AEAD.aad[i] == e && out[i] == e, "session id, sequence number bytes and length, authenticated and sent");
                    // plain text
                    assert!(AEAD.input_len == 2 + n, "plain text size");
                    let j: usize = nd::any();
                    nd::assume(j < 2 + n);
                    let e = if j < 2 { (n as u16).to_le_bytes()[j] } else { app[j - 2] };
                    assert!(AEAD.input[j] == e, "plain text is the message length and the message");
                    assert!(out[head + j] == AEAD.output[j], "cipher text sent");
                    let q: usize = nd::any();
                    nd::assume(q < 16);
                    assert!(out[head + 2 + n + q] == AEAD.tag[q], "tag sent");
                }
                Err(e) => {
                    if seq == u64::MAX {
                        assert!(AEAD.n == 0 && (total > m || e == SPDM_STATUS_SEQUENCE_NUMBER_OVERFLOW), "exhausted");
                    } else if total <= m {
                        assert!(AEAD.n == 1 && !AEAD.ok, "refused only when encryption fails");
                    } else {
                        assert!(AEAD.n == 0, "nothing encrypted that does not fit");
                    }
                }
            }
        }
        if $established {
            let (r1, p1) = (s.get_request_direction_sequence_number(), s.get_response_direction_sequence_number());
            let now = if $req { r1 } else { p1 };
            assert!(now == seq.saturating_add(1) || (now == seq && unsafe { AEAD.n } == 0), "a used sequence number is never used again");
            assert!(if $req { p1 == ps } else { r1 == rs }, "the other direction is untouched");
        }
        assert!(s.get_session_id() == id, "session id untouched");
    }};
}
macro_rules! decode {
    ($established:literal, $req:literal, $secret:expr, $count:expr) => {{
        install_free_kdf();
        install_aead();
        let (id, count): (u32, u8) = (nd::any(), $count);
        nd::assume(count <= 8 && id != 0);
        let algo = aead_algo();
        let mut s = ManuallyDrop::new(session(id, algo, count, !$established, $established));
        let (rs, ps): (u64, u64) = if $established { (nd::any(), nd::any()) } else { (0, 0) };
        if $established {
            s.set_request_direction_sequence_number(rs);
            s.set_response_direction_sequence_number(ps);
        }
        s.set_session_state(if $established { SpdmSessionState::SpdmSessionEstablished } else { SpdmSessionState::SpdmSessionHandshaking });
        let inp: [u8; OUT] = nd::any();
        let (n, m): (usize, usize) = (nd::any(), nd::any());
        nd::assume(n <= OUT && m <= APP + 2);
        let fill: u8 = nd::any();
        let mut app = [fill; APP + 2];
        let seq = if $req { rs } else { ps };
        let r = s.decode_spdm_secured_message(&inp[..n], &mut app[..m], $req);
        cover!(r.is_ok(), "opened");
        cover!(r.is_err() && n == OUT, "refused");
        let head = 6 + count as usize;
        // what the header has to say
        let mut h_ok = n >= head && inp[..4] == id.to_le_bytes();
        for i in 0..8 {
            if h_ok && i < count as usize && inp[4 + i] != seq.to_le_bytes()[i] {
                h_ok = false;
            }
        }
        let len = if n >= head { inp[head - 2] as usize + 256 * inp[head - 1] as usize } else { 0 };
        let framed = h_ok && len >= 16 && head + len <= n && seq != u64::MAX;
        unsafe {
            if AEAD.n > 0 {
                assert!(framed, "only a well-framed message for this session and sequence number is decrypted");
                assert!(AEAD.n == 1 && AEAD.algo == algo.bits() && AEAD.key == t($secret, L_KEY), "with the key of this direction and phase");
                assert!(AEAD.iv == nonce($secret, seq), "under the nonce of this sequence number");
                assert!(AEAD.aad_len == head, "associated data size");
                let i: usize = nd::any();
                nd::assume(i < head);
                assert!(AEAD.aad[i] == inp[i], "associated data is the received header");
                assert!(AEAD.input_len == len - 16, "cipher text size");
                let j: usize = nd::any();
                nd::assume(j < len - 16);
                assert!(AEAD.input[j] == inp[head + j], "cipher text is what was received");
                let q: usize = nd::any();
                nd::assume(q < 16);
                assert!(AEAD.tag[q] == inp[head + len - 16 + q], "tag is what was received");
            }
            let inner = AEAD.output[0] as usize + 256 * AEAD.output[1] as usize;
            match r {
                Ok(k) => {
                    assert!(AEAD.n == 1 && AEAD.ok, "accepted only when the tag verifies");
                    assert!(len >= 18 && k == inner && k + 18 <= len && k <= m, "delivered length is the one inside");
                    let i: usize = nd::any();
                    nd::assume(i < m);
                    assert!(app[i] == if i < k { AEAD.output[2 + i] } else { fill }, "delivered bytes are the plain text, no more");
                }
                Err(_) => {
                    let i: usize = nd::any();
                    nd::assume(i < APP + 2);
                    assert!(app[i] == fill, "nothing is delivered");
                    assert!(!framed || (AEAD.n == 1 && (!AEAD.ok || len < 18 || inner + 18 > len || inner > m)), "a genuine message is not refused");
                }
            }
        }
        if $established {
            let (r1, p1) = (s.get_request_direction_sequence_number(), s.get_response_direction_sequence_number());
            let now = if $req { r1 } else { p1 };
            assert!(now == seq.saturating_add(1) || (now == seq && r.is_err()), "an accepted sequence number is never accepted again");
            assert!(if $req { p1 == ps } else { r1 == rs }, "the other direction is untouched");
        }
        assert!(s.get_session_id() == id, "session id untouched");
    }};
}

harnesses! {
    /// @fns: SpdmSession::encode_spdm_secured_message
    /// @bound: messages up to 4 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn encode_app_req() { encode!(true, true, t(TAG_PSK_MS, L_REQ_APP), 2) }
    /// @fns: SpdmSession::encode_spdm_secured_message
    /// @bound: messages up to 4 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn encode_app_rsp() { encode!(true, false, t(TAG_PSK_MS, L_RSP_APP), 0) }
    /// @fns: SpdmSession::encode_spdm_secured_message
    /// @bound: messages up to 4 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn encode_hs_req() { encode!(false, true, t(TAG_PSK_HS, L_REQ_HS), 0) }
    /// @fns: SpdmSession::encode_spdm_secured_message
    /// @bound: messages up to 4 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn encode_hs_rsp() { encode!(false, false, t(TAG_PSK_HS, L_RSP_HS), 2) }
    /// @fns: SpdmSession::decode_spdm_secured_message
    /// @bound: received messages up to 36 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn decode_app_req() { decode!(true, true, t(TAG_PSK_MS, L_REQ_APP), 2) }
    /// @fns: SpdmSession::decode_spdm_secured_message
    /// @bound: received messages up to 36 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn decode_app_rsp() { decode!(true, false, t(TAG_PSK_MS, L_RSP_APP), 0) }
    /// @fns: SpdmSession::decode_spdm_secured_message
    /// @bound: received messages up to 36 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn decode_hs_req() { decode!(false, true, t(TAG_PSK_HS, L_REQ_HS), 0) }
    /// @fns: SpdmSession::decode_spdm_secured_message
    /// @bound: received messages up to 36 bytes; 0 or 2 sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(38)]
    fn decode_hs_rsp() { decode!(false, false, t(TAG_PSK_HS, L_RSP_HS), 2) }
    /// @fns: SpdmSession::encode_spdm_secured_message
    /// @bound: messages up to 4 bytes; any number of sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    /// @tier: thorough
    #[unwind(38)]
    fn encode_any_count() { encode!(true, true, t(TAG_PSK_MS, L_REQ_APP), nd::any()) }
    /// @fns: SpdmSession::decode_spdm_secured_message
    /// @bound: messages up to 36 bytes; any number of sequence number bytes
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    /// @tier: thorough
    #[unwind(38)]
    fn decode_any_count() { decode!(true, true, t(TAG_PSK_MS, L_REQ_APP), nd::any()) }
    /// No keys, no secured messages: before the handshake nothing is secured or opened.
    /// @fns: SpdmSession::encode_spdm_secured_message, SpdmSession::decode_spdm_secured_message
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(44)]
    fn not_started() {
        install_aead();
        let id: u32 = nd::any();
        nd::assume(id != 0);
        let mut s = ManuallyDrop::new(SpdmSession::new());
        s.setup(id).unwrap();
        s.set_crypto_param(SpdmBaseHashAlgo::TPM_ALG_SHA_256, SpdmDheAlgo::SECP_384_R1, aead_algo(), SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE);
        let (req, a, b): (bool, u64, u64) = (nd::any(), nd::any(), nd::any());
        s.set_request_direction_sequence_number(a);
        s.set_response_direction_sequence_number(b);
        let (x, mut y): ([u8; 40], [u8; 40]) = (nd::any(), [7; 40]);
        let n: usize = nd::any();
        nd::assume(n <= 40);
        assert!(s.encode_spdm_secured_message(&x[..n], &mut y, req).is_err() && s.decode_spdm_secured_message(&x[..n], &mut y, req).is_err(), "refused");
        assert!(y == [7; 40] && unsafe { AEAD.n } == 0, "nothing produced");
        assert!(s.get_request_direction_sequence_number() == a && s.get_response_direction_sequence_number() == b, "no sequence number used");
        cover!(n == 40, "longest");
    }
    /// A message longer than the internal buffers is refused, not truncated, and never a panic.
    /// @fns: SpdmSession::encode_spdm_secured_message
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(20)]
    fn encode_too_long() {
        install_free_kdf();
        install_aead();
        let mut s = ManuallyDrop::new(session(0x10002, aead_algo(), 2, false, true));
        s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
        let app = [0u8; 400];
        let (n, req): (usize, bool) = (nd::any(), nd::any());
        nd::assume(n > spdmlib::config::SENDER_BUFFER_SIZE - 2 && n <= 400);
        let mut out = [0u8; 480];
        assert!(s.encode_spdm_secured_message(&app[..n], &mut out, req).is_err(), "refused");
        assert!(unsafe { AEAD.n } == 0, "nothing encrypted");
        cover!(n == 400, "longest");
    }
    /// @fns: SpdmSession::decode_spdm_secured_message
    /// @cfg: small
    /// @cbmc: --no-array-field-sensitivity
    #[unwind(20)]
    fn decode_too_long() {
        install_free_kdf();
        install_aead();
        let mut s = ManuallyDrop::new(session(0x10002, aead_algo(), 0, false, true));
        s.set_session_state(SpdmSessionState::SpdmSessionEstablished);
        let mut inp = [0u8; 400];
        inp[..4].copy_from_slice(&0x10002u32.to_le_bytes());
        let (len, req): (u16, bool) = (nd::any(), nd::any());
        nd::assume(len as usize > spdmlib::config::RECEIVER_BUFFER_SIZE + 16);
        inp[4..6].copy_from_slice(&len.to_le_bytes());
        let mut out = [0u8; 400];
        assert!(s.decode_spdm_secured_message(&inp, &mut out, req).is_err(), "refused");
        assert!(unsafe { AEAD.n } == 0, "nothing decrypted");
        cover!(len as usize == 394, "whole buffer");
    }
}
