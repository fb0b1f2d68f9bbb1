//! P05: algorithm sets.
//! @level proof
use crate::nd;
use codec::{Codec, Reader, Writer};
use spdmlib::protocol::*;

/// Contract of one algorithm bit set: `$le` little-endian wire integer,
/// `$all` the bits DSP0274 defines, in preference order.
macro_rules! set_contract {
    ($t:ty, $int:ty, $n:literal, [$($bit:expr),*]) => {{
        let all: $int = 0 $(| $bit)*;
        // decode: never fails on enough bytes, drops undefined bits, keeps defined ones
        let raw: $int = nd::any();
        let b = raw.to_le_bytes();
        let v = <$t>::read(&mut Reader::init(&b));
        assert!(v.is_some(), "every bit pattern decodes");
        let v = v.unwrap();
        assert!(v.bits() == raw & all, "decode keeps exactly the defined bits");
        assert!(<$t>::read(&mut Reader::init(&b[..$n - 1])).is_none(), "a short buffer is refused");
        // encode
        let mut o = [0u8; $n];
        assert!(v.encode(&mut Writer::init(&mut o)) == Ok($n), "encodes in its size");
        assert!(o == (raw & all).to_le_bytes(), "encoding is the bits, little-endian");
        assert!(v.is_valid() == (v.bits() != 0), "valid is non-empty");
        let one = v.bits().count_ones() == 1;
        assert!(v.is_no_more_than_one_selected() == (v.bits().count_ones() <= 1), "at most one selected");
        assert!(v.is_valid_one_select() == one, "exactly one selected");
        cover!(one, "one selected");
        cover!(v.bits().count_ones() > 1, "several offered");
        v
    }};
}
macro_rules! pick_contract {
    ($t:ty, $int:ty, $n:literal, [$($bit:expr),*]) => {{
        let mine = set_contract!($t, $int, $n, [$($bit),*]);
        let theirs_raw: $int = nd::any();
        let tb = theirs_raw.to_le_bytes();
        let theirs = <$t>::read(&mut Reader::init(&tb)).unwrap();
        let mut pick = mine;
        pick.prioritize(theirs);
        let common = mine.bits() & theirs.bits();
        let mut expect: $int = 0;
        $( if expect == 0 && common & $bit != 0 { expect = $bit; } )*
        assert!(pick.bits() == expect, "the most preferred common algorithm is picked, none if none is common");
        assert!(pick.is_no_more_than_one_selected(), "at most one algorithm is picked");
        cover!(common != 0 && mine != theirs, "something in common");
        cover!(common == 0 && mine.is_valid() && theirs.is_valid(), "nothing in common");
    }};
}

harnesses! {
    /// @fns: SpdmBaseAsymAlgo::prioritize, SpdmBaseAsymAlgo::read, SpdmBaseAsymAlgo::encode
    #[unwind(10)]
    fn base_asym() { pick_contract!(SpdmBaseAsymAlgo, u32, 4, [0x80, 0x10, 0x40, 0x08, 0x02, 0x20, 0x04, 0x01]) }
    /// @fns: SpdmReqAsymAlgo::prioritize, SpdmReqAsymAlgo::read, SpdmReqAsymAlgo::encode
    #[unwind(10)]
    fn req_asym() { pick_contract!(SpdmReqAsymAlgo, u16, 2, [0x80, 0x10, 0x40, 0x08, 0x02, 0x20, 0x04, 0x01]) }
    /// @fns: SpdmBaseHashAlgo::prioritize, SpdmBaseHashAlgo::read, SpdmBaseHashAlgo::encode
    #[unwind(6)]
    fn base_hash() { pick_contract!(SpdmBaseHashAlgo, u32, 4, [4, 2, 1]) }
    /// @fns: SpdmDheAlgo::prioritize, SpdmDheAlgo::read, SpdmDheAlgo::encode
    #[unwind(6)]
    fn dhe() { pick_contract!(SpdmDheAlgo, u16, 2, [0x10, 0x08]) }
    /// @fns: SpdmAeadAlgo::prioritize, SpdmAeadAlgo::read, SpdmAeadAlgo::encode
    #[unwind(6)]
    fn aead() { pick_contract!(SpdmAeadAlgo, u16, 2, [2, 1, 4]) }
    /// @fns: SpdmKeyScheduleAlgo::prioritize, SpdmKeyScheduleAlgo::read, SpdmKeyScheduleAlgo::encode
    #[unwind(6)]
    fn key_schedule() {
        let raw: u16 = nd::any();
        let b = raw.to_le_bytes();
        let v = SpdmKeyScheduleAlgo::read(&mut Reader::init(&b)).unwrap();
        assert!(v.bits() == raw & 1, "decode keeps exactly the defined bits");
        assert!(v.is_valid_one_select() == (raw & 1 == 1) && v.is_valid() == (raw & 1 == 1), "valid is non-empty");
        let mut o = [0u8; 2];
        assert!(v.encode(&mut Writer::init(&mut o)) == Ok(2) && o == (raw & 1).to_le_bytes(), "encoding is the bits");
        let peer: u16 = nd::any();
        let p = peer.to_le_bytes();
        let p = SpdmKeyScheduleAlgo::read(&mut Reader::init(&p)).unwrap();
        let mut pick = v;
        pick.prioritize(p);
        assert!(pick.bits() == raw & peer & 1, "the common key schedule is picked");
        cover!(pick.bits() == 1, "something in common");
        cover!(pick.bits() == 0 && raw & 1 == 1, "nothing in common");
    }
    /// @fns: SpdmMeasurementSpecification::prioritize, SpdmMeasurementSpecification::read, SpdmMeasurementSpecification::encode
    #[unwind(6)]
    fn measurement_spec() {
        // a single defined bit: several can never be offered
        let raw: u8 = nd::any();
        let b = [raw];
        let v = SpdmMeasurementSpecification::read(&mut Reader::init(&b)).unwrap();
        assert!(v.bits() == raw & 1, "decode keeps exactly the defined bits");
        let mut o = [0u8; 1];
        assert!(v.encode(&mut Writer::init(&mut o)) == Ok(1) && o[0] == raw & 1, "encoding is the bits");
        let peer: u8 = nd::any();
        let p = [peer];
        let p = SpdmMeasurementSpecification::read(&mut Reader::init(&p)).unwrap();
        let mut pick = v;
        pick.prioritize(p);
        assert!(pick.bits() == raw & peer & 1, "the common specification is picked");
        cover!(pick.bits() == 1, "something in common");
    }
    /// @fns: SpdmMeasurementHashAlgo::read, SpdmMeasurementHashAlgo::encode
    #[unwind(6)]
    fn measurement_hash() {
        let _ = set_contract!(SpdmMeasurementHashAlgo, u32, 4, [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80]);
    }
    /// Size of each single algorithm (digest, signature, exchange data, AEAD key, IV, tag).
    /// @fns: SpdmBaseHashAlgo::get_size, SpdmBaseAsymAlgo::get_size, SpdmReqAsymAlgo::get_size, SpdmDheAlgo::get_size, SpdmAeadAlgo::get_key_size, SpdmAeadAlgo::get_iv_size, SpdmAeadAlgo::get_tag_size, SpdmMeasurementHashAlgo::get_size
    #[unwind(6)]
    fn sizes() {
        let raw: u32 = nd::any();
        if let Some(h) = SpdmBaseHashAlgo::from_bits(raw) {
            if h.is_valid_one_select() {
                let s = match raw { 1 => 32, 2 => 48, _ => 64 };
                assert!(h.get_size() == s, "digest size");
                assert!(s as usize <= SPDM_MAX_HASH_SIZE, "digest fits its buffer");
            }
        }
        let asym = |r: u32| match r {
            0x01 | 0x02 => 256u16,
            0x04 | 0x08 => 384,
            0x20 | 0x40 => 512,
            0x10 => 64,
            _ => 96,
        };
        if let Some(a) = SpdmBaseAsymAlgo::from_bits(raw) {
            if a.is_valid_one_select() {
                assert!(a.get_size() == asym(raw), "signature size");
                assert!(a.get_size() as usize <= SPDM_MAX_ASYM_KEY_SIZE, "signature fits its buffer");
            }
        }
        if let Some(a) = SpdmReqAsymAlgo::from_bits(raw as u16) {
            if a.is_valid_one_select() {
                assert!(a.get_size() == asym(raw as u16 as u32), "requester signature size");
            }
        }
        if let Some(d) = SpdmDheAlgo::from_bits(raw as u16) {
            if d.is_valid_one_select() {
                assert!(d.get_size() == if raw as u16 == 8 { 64 } else { 96 }, "exchange data size");
                assert!(d.get_size() as usize <= SPDM_MAX_DHE_KEY_SIZE, "exchange data fits its buffer");
            }
        }
        if let Some(a) = SpdmAeadAlgo::from_bits(raw as u16) {
            if a.is_valid_one_select() {
                assert!(a.get_key_size() == if raw as u16 == 1 { 16 } else { 32 }, "AEAD key size");
                assert!(a.get_iv_size() == 12 && a.get_tag_size() == 16, "AEAD IV and tag size");
            }
        }
        if let Some(m) = SpdmMeasurementHashAlgo::from_bits(raw) {
            if m.bits().count_ones() == 1 {
                let s = match raw { 1 => 0, 2 | 0x10 | 0x80 => 32, 4 | 0x20 => 48, _ => 64 };
                assert!(m.get_size() == s, "measurement digest size");
            }
        }
        cover!(raw == 2, "a single bit");
    }
    /// One algorithm structure: type, fixed count 2, no extensions, the set.
    /// @fns: SpdmAlgStruct::read, SpdmAlgStruct::encode
    #[unwind(6)]
    fn alg_struct() {
        let b: [u8; 4] = nd::any();
        let n: usize = nd::any();
        nd::assume(n <= 4);
        let v = SpdmAlgStruct::read(&mut Reader::init(&b[..n]));
        let ok = n == 4 && b[0] >= 2 && b[0] <= 5 && b[1] == 0x20;
        cover!(v.is_some(), "accepted");
        cover!(v.is_none() && n == 4, "refused");
        assert!(v.is_some() == ok, "accepted exactly when type is known, fixed count 2, no extension");
        if let Some(v) = v {
            let raw = u16::from_le_bytes([b[2], b[3]]);
            let mask = match &v.alg_supported {
                SpdmAlg::SpdmAlgoDhe(a) => { assert!(b[0] == 2, "type"); assert!(a.bits() == raw & 0x18, "set"); 0x18 }
                SpdmAlg::SpdmAlgoAead(a) => { assert!(b[0] == 3, "type"); assert!(a.bits() == raw & 7, "set"); 7 }
                SpdmAlg::SpdmAlgoReqAsym(a) => { assert!(b[0] == 4, "type"); assert!(a.bits() == raw & 0xff, "set"); 0xff }
                SpdmAlg::SpdmAlgoKeySchedule(a) => { assert!(b[0] == 5, "type"); assert!(a.bits() == raw & 1, "set"); 1 }
                SpdmAlg::SpdmAlgoUnknown(_) => { assert!(false, "type"); 0 }
            };
            let mut o = [0u8; 4];
            assert!(v.encode(&mut Writer::init(&mut o)) == Ok(4), "four bytes");
            let r = (raw & mask).to_le_bytes();
            assert!(o == [b[0], 0x20, r[0], r[1]], "encoding is type, 0x20, set");
        }
    }
}
