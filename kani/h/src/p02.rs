//! P02: MCTP framing.
//! @level proof
use crate::nd;
use codec::{Codec, Reader, Writer};
use mctp_transport::{MctpMessageHeader, MctpMessageType, MctpTransportEncap};
use spdmlib::common::SpdmTransportEncap;

const N: usize = 24;

fn encap_contract(app: bool) {
    let mut t = MctpTransportEncap {};
    let msg: [u8; N] = nd::any();
    let init: [u8; N] = nd::any();
    let (n, m): (usize, usize) = (nd::any(), nd::any());
    nd::assume(n <= N && m <= N);
    let flag: bool = nd::any();
    let mut out = init;
    let r = if app { t.encap_app(&msg[..n], &mut out[..m], flag) } else { t.encap(&msg[..n], &mut out[..m], flag) };
    let p: usize = nd::any();
    nd::assume(p < N);
    cover!(r.is_ok() && n > 4 && flag, "framed");
    cover!(r.is_err() && m > 4, "refused");
    match r {
        Ok(l) => {
            assert!(m >= n + 1, "frame fits its buffer");
            assert!(l == n + 1, "frame is one type byte and the message");
            let ty = match (app, flag) {
                (false, false) | (true, false) => 5,
                (false, true) => 6,
                (true, true) => 1,
            };
            assert!(out[0] == ty, "type byte says SPDM, secured SPDM or application");
            if p < n {
                assert!(out[1 + p] == msg[p], "message copied unchanged");
            }
            if p >= l {
                assert!(out[p] == init[p], "bytes after the frame unchanged");
            }
            let mut back = [0u8; N];
            let b: usize = nd::any();
            nd::assume(b <= N);
            let d = if app { t.decap_app(&out[..l], &mut back[..b]) } else { t.decap(&out[..l], &mut back[..b]) };
            match d {
                Ok((dl, df)) => {
                    assert!(b >= n && dl == n && df == flag, "decap returns the length and kind encapsulated");
                    if p < n {
                        assert!(back[p] == msg[p], "decap returns the message encapsulated");
                    }
                }
                Err(_) => assert!(b < n, "decap of a frame succeeds when it fits"),
            }
        }
        Err(_) => assert!(m < n + 1, "encap succeeds when the frame fits"),
    }
}

fn decap_contract(app: bool) {
    let mut t = MctpTransportEncap {};
    let frame: [u8; N] = nd::any();
    let init: [u8; N] = nd::any();
    let (n, m): (usize, usize) = (nd::any(), nd::any());
    nd::assume(n <= N && m <= N);
    let mut out = init;
    let r = if app { t.decap_app(&frame[..n], &mut out[..m]) } else { t.decap(&frame[..n], &mut out[..m]) };
    let p: usize = nd::any();
    nd::assume(p < N);
    let kind = if n == 0 {
        None
    } else {
        match (frame[0], app) {
            (5, _) => Some(false),
            (6, false) | (1, true) => Some(true),
            _ => None,
        }
    };
    cover!(r.is_ok() && n > 4, "accepted");
    cover!(r.is_err() && n > 4 && kind.is_some(), "too big");
    cover!(r.is_err() && n > 4 && kind.is_none(), "wrong type");
    match r {
        Ok((l, f)) => {
            assert!(kind == Some(f), "only an SPDM or secured SPDM frame is accepted, as what it is");
            assert!(l == n - 1 && l <= m, "decap returns exactly the bytes after the type byte");
            if p < l {
                assert!(out[p] == frame[1 + p], "payload copied unchanged");
            } else {
                assert!(out[p] == init[p], "bytes after the payload unchanged");
            }
        }
        Err(_) => {
            assert!(kind.is_none() || n - 1 > m, "a well-formed frame that fits is accepted");
        }
    }
}

harnesses! {
    /// encap then decap is the identity on message and kind; refusal exactly when the frame does not fit.
    /// @fns: MctpTransportEncap::encap, MctpTransportEncap::decap, MctpMessageHeader::encode, MctpMessageHeader::read
    /// @bound: messages and buffers of at most 24 bytes (the code is loop-free)
    #[unwind(4)]
    fn encap() { encap_contract(false) }
    /// The same for application frames.
    /// @fns: MctpTransportEncap::encap_app, MctpTransportEncap::decap_app
    /// @bound: messages and buffers of at most 24 bytes (the code is loop-free)
    #[unwind(4)]
    fn encap_app() { encap_contract(true) }
    /// Any received bytes: accepted exactly when the type is one of the two and the payload fits.
    /// @fns: MctpTransportEncap::decap
    /// @bound: frames and buffers of at most 24 bytes (the code is loop-free)
    #[unwind(4)]
    fn decap() { decap_contract(false) }
    /// The same for application frames.
    /// @fns: MctpTransportEncap::decap_app
    /// @bound: frames and buffers of at most 24 bytes (the code is loop-free)
    #[unwind(4)]
    fn decap_app() { decap_contract(true) }
    /// Every type byte survives a decode and re-encode.
    /// @fns: MctpMessageHeader::encode, MctpMessageHeader::read
    #[unwind(2)]
    fn header() {
        let b: [u8; 1] = nd::any();
        let h = MctpMessageHeader::read(&mut Reader::init(&b));
        assert!(h.is_some(), "every byte is a type");
        let mut o = [0u8; 1];
        assert!(h.unwrap().encode(&mut Writer::init(&mut o)) == Ok(1), "one byte");
        assert!(o == b, "type byte round-trips");
        cover!(b[0] == 0x7e, "vendor type");
    }
    /// Sequence-number and random-data sizes MCTP prescribes for secured messages.
    /// @fns: MctpTransportEncap::get_sequence_number_count, MctpTransportEncap::get_max_random_count
    #[unwind(2)]
    fn constants() {
        let mut t = MctpTransportEncap {};
        assert!(t.get_sequence_number_count() == 2, "two sequence-number bytes");
        assert!(t.get_max_random_count() == 32, "at most 32 random bytes");
    }
}
