//! P03: PCI-DOE framing.
//! @level proof
use crate::nd;
use codec::{Codec, Reader, Writer};
use pcidoe_transport::{PciDoeDataObjectType, PciDoeMessageHeader, PciDoeTransportEncap, PciDoeVendorId};
use spdmlib::common::SpdmTransportEncap;

const N: usize = 28;

harnesses! {
    /// encap: 8-byte header (vendor 1, type, zero, length in dwords), the
    /// message, padding to a dword; refusal exactly when that does not fit;
    /// decap returns the padded message and its kind.
    /// @fns: PciDoeTransportEncap::encap, PciDoeTransportEncap::decap, PciDoeMessageHeader::encode, PciDoeMessageHeader::read
    /// @bound: messages and buffers of at most 28 bytes (the code is loop-free)
    #[unwind(6)]
    fn encap() {
        let mut t = PciDoeTransportEncap {};
        let msg: [u8; N] = nd::any();
        let init: [u8; N] = nd::any();
        let (n, m): (usize, usize) = (nd::any(), nd::any());
        nd::assume(n <= N && m <= N);
        let flag: bool = nd::any();
        let mut out = init;
        let r = t.encap(&msg[..n], &mut out[..m], flag);
        let p: usize = nd::any();
        nd::assume(p < N);
        let pad = (n + 3) / 4 * 4;
        cover!(r.is_ok() && n % 4 == 1 && flag, "framed with padding");
        cover!(r.is_err() && m > 8, "refused");
        match r {
            Ok(l) => {
                assert!(m >= 8 + pad && l == 8 + pad, "frame is header, message and padding to a dword");
                assert!(out[0] == 1 && out[1] == 0, "vendor id is PCI-SIG");
                assert!(out[2] == if flag { 2 } else { 1 }, "type says SPDM or secured SPDM");
                assert!(out[3] == 0, "reserved byte is zero");
                let len = u32::from_le_bytes([out[4], out[5], out[6], out[7]]);
                assert!(len as usize == l / 4, "length counts the dwords of the whole frame");
                if p < n {
                    assert!(out[8 + p] == msg[p], "message copied unchanged");
                }
                if p >= l {
                    assert!(out[p] == init[p], "bytes after the frame unchanged");
                }
                let mut back = [0u8; N];
                let b: usize = nd::any();
                nd::assume(b <= N);
                match t.decap(&out[..l], &mut back[..b]) {
                    Ok((dl, df)) => {
                        assert!(b >= pad && dl == pad && df == flag, "decap returns the padded length and kind");
                        if p < n {
                            assert!(back[p] == msg[p], "decap returns the message encapsulated");
                        }
                    }
                    Err(_) => assert!(b < pad, "decap of a frame succeeds when it fits"),
                }
            }
            Err(_) => assert!(m < 8 + pad, "encap succeeds when the frame fits"),
        }
    }
    /// Any received bytes: accepted exactly when vendor and type are right,
    /// the declared length is complete and fits.
    /// @fns: PciDoeTransportEncap::decap, PciDoeMessageHeader::read
    /// @bound: frames and buffers of at most 28 bytes (the code is loop-free)
    #[unwind(6)]
    fn decap() {
        let mut t = PciDoeTransportEncap {};
        let frame: [u8; N] = nd::any();
        let init: [u8; N] = nd::any();
        let (n, m): (usize, usize) = (nd::any(), nd::any());
        nd::assume(n <= N && m <= N);
        let mut out = init;
        let r = t.decap(&frame[..n], &mut out[..m]);
        let p: usize = nd::any();
        nd::assume(p < N);
        let raw = u32::from_le_bytes([frame[4], frame[5], frame[6], frame[7]]) & 0x3ffff;
        let dw = if raw == 0 { 0x40000 } else { raw as usize };
        let head = n >= 8 && frame[0] == 1 && frame[1] == 0 && (frame[2] == 1 || frame[2] == 2) && dw >= 2;
        let ok = head && dw * 4 <= n && dw * 4 - 8 <= m;
        cover!(r.is_ok() && n > 16, "accepted");
        cover!(r.is_err() && head, "length does not fit");
        match r {
            Ok((l, f)) => {
                assert!(ok, "only a complete PCI-SIG SPDM frame that fits is accepted");
                assert!(f == (frame[2] == 2), "kind is what the type says");
                assert!(l == dw * 4 - 8, "decap returns exactly the declared payload");
                if p < l {
                    assert!(out[p] == frame[8 + p], "payload copied unchanged");
                } else {
                    assert!(out[p] == init[p], "bytes after the payload unchanged");
                }
            }
            Err(_) => assert!(!ok, "a well-formed frame that fits is accepted"),
        }
    }
    /// Header: every length a frame can have survives encode and decode
    /// (18-bit dword count, 0 meaning 2^18).
    /// @fns: PciDoeMessageHeader::encode, PciDoeMessageHeader::read
    #[unwind(6)]
    fn header() {
        let dwords: u32 = nd::any();
        nd::assume(dwords >= 2 && dwords <= 0x40000);
        let secured: bool = nd::any();
        let h = PciDoeMessageHeader {
            vendor_id: PciDoeVendorId::PciDoeVendorIdPciSig,
            data_object_type: if secured {
                PciDoeDataObjectType::PciDoeDataObjectTypeSecuredSpdm
            } else {
                PciDoeDataObjectType::PciDoeDataObjectTypeSpdm
            },
            payload_length: dwords * 4 - 8,
        };
        let mut b = [0u8; 8];
        assert!(h.encode(&mut Writer::init(&mut b)) == Ok(8), "header is eight bytes");
        let len = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
        assert!(len == if dwords == 0x40000 { 0 } else { dwords }, "length field is the dword count, zero for 2^18");
        let mut r = Reader::init(&b);
        let d = PciDoeMessageHeader::read(&mut r);
        assert!(d.is_some() && r.used() == 8, "header decodes");
        let d = d.unwrap();
        assert!(d.payload_length == h.payload_length, "payload length round-trips");
        assert!(d.vendor_id == h.vendor_id && d.data_object_type == h.data_object_type, "vendor and type round-trip");
        cover!(dwords == 0x40000, "largest frame");
    }
    /// PCI-DOE adds no application header: encap_app and decap_app copy, and
    /// refuse what does not fit.
    /// @fns: PciDoeTransportEncap::encap_app, PciDoeTransportEncap::decap_app
    /// @bound: messages and buffers of at most 28 bytes (the code is loop-free)
    #[unwind(2)]
    fn app() {
        let mut t = PciDoeTransportEncap {};
        let msg: [u8; N] = nd::any();
        let init: [u8; N] = nd::any();
        let (n, m): (usize, usize) = (nd::any(), nd::any());
        nd::assume(n <= N && m <= N);
        let flag: bool = nd::any();
        let dec: bool = nd::any();
        let mut out = init;
        let r = if dec {
            t.decap_app(&msg[..n], &mut out[..m])
        } else {
            t.encap_app(&msg[..n], &mut out[..m], flag).map(|l| (l, false))
        };
        let p: usize = nd::any();
        nd::assume(p < N);
        cover!(r.is_ok() && n > 4 && dec, "copied");
        cover!(r.is_err() && m > 4, "refused");
        match r {
            Ok((l, f)) => {
                assert!(n <= m && l == n && !f, "the whole message is copied");
                assert!(out[p] == if p < n { msg[p] } else { init[p] }, "copied unchanged, nothing else changed");
            }
            Err(_) => assert!(n > m, "a message that fits is copied"),
        }
    }
    /// @fns: PciDoeTransportEncap::get_sequence_number_count, PciDoeTransportEncap::get_max_random_count
    #[unwind(2)]
    fn constants() {
        let mut t = PciDoeTransportEncap {};
        assert!(t.get_sequence_number_count() == 0, "no sequence-number bytes");
        assert!(t.get_max_random_count() == 0, "no random bytes");
    }
}
