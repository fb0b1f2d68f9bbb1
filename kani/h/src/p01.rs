//! P01: primitive integers, Reader and Writer.
//! @level proof
use crate::nd;
use codec::{u24, Codec, Reader, Writer};

/// ensures of `Codec for $t`: little-endian layout, exact size, no byte
/// outside the encoding changed, refusal exactly when it does not fit.
macro_rules! int_contract {
    ($t:ty, $n:literal, $any:expr, $le:expr) => {{
        const CAP: usize = $n + 4;
        let v: $t = $any;
        let init: [u8; CAP] = nd::any();
        let mut buf = init;
        let cap: usize = nd::any();
        let pre: usize = nd::any();
        nd::assume(cap <= CAP && pre <= cap && pre <= 2);
        let le: [u8; $n] = $le(v);
        {
            let mut w = Writer::init(&mut buf[..cap]);
            let mut i = 0;
            while i < 2 {
                if i < pre {
                    assert!(w.push(init[i]) == Some(init[i]), "push within capacity succeeds");
                }
                i += 1;
            }
            let r = v.encode(&mut w);
            if cap - pre >= $n {
                assert!(r == Ok($n), "encode reports its exact size");
                assert!(w.used() == pre + $n, "encode consumes exactly its size");
                assert!(w.left() == cap - pre - $n, "left is capacity minus used");
            } else {
                assert!(r.is_err(), "encode that does not fit is refused");
                assert!(w.used() <= cap, "writer never passes its capacity");
            }
        }
        let mut i = 0;
        while i < CAP {
            if i < pre || i >= cap {
                assert!(buf[i] == init[i], "bytes outside the encoding unchanged");
            } else if cap - pre >= $n {
                if i < pre + $n {
                    assert!(buf[i] == le[i - pre], "encoding is little-endian");
                } else {
                    assert!(buf[i] == init[i], "bytes after the encoding unchanged");
                }
            }
            i += 1;
        }
        cover!(cap - pre >= $n && pre == 2, "encode succeeds at an offset");
        cover!(cap - pre < $n, "encode refused");
        if cap - pre >= $n {
            let mut r = Reader::init(&buf[pre..cap]);
            let d = <$t>::read(&mut r);
            assert!(d.is_some(), "decode of an encoding succeeds");
            assert!($le(d.unwrap()) == le, "decode returns the encoded value");
            assert!(r.used() == $n && r.left() == cap - pre - $n, "decode consumes exactly its size");
        }
    }};
}
/// ensures of `Codec::read` on arbitrary bytes
macro_rules! read_contract {
    ($t:ty, $n:literal, $le:expr) => {{
        const CAP: usize = $n + 3;
        let buf: [u8; CAP] = nd::any();
        let cap: usize = nd::any();
        nd::assume(cap <= CAP);
        let mut r = Reader::init(&buf[..cap]);
        let d = <$t>::read(&mut r);
        cover!(d.is_some(), "decode succeeds");
        cover!(d.is_none(), "decode refused");
        match d {
            Some(v) => {
                assert!(cap >= $n, "decode never reads past the buffer");
                let le: [u8; $n] = $le(v);
                let mut i = 0;
                while i < $n {
                    assert!(le[i] == buf[i], "decode is little-endian");
                    i += 1;
                }
                assert!(r.used() == $n, "decode consumes exactly its size");
            }
            None => {
                assert!(cap < $n, "decode of enough bytes succeeds");
                assert!(r.used() == 0 && r.left() == cap, "failed decode consumes nothing");
            }
        }
    }};
}
fn le24(v: u24) -> [u8; 3] {
    let b = v.get().to_le_bytes();
    [b[0], b[1], b[2]]
}
fn any24() -> u24 {
    let v: u32 = nd::any();
    nd::assume(v < 1 << 24);
    let t = u24::new(v);
    assert!(t.get() == v, "u24 keeps its value");
    t
}

harnesses! {
    /// @fns: <u8 as Codec>::encode, <u8 as Codec>::read, Writer::push
    #[unwind(9)]
    fn int_u8() { int_contract!(u8, 1, nd::any(), u8::to_le_bytes) }
    /// @fns: <u16 as Codec>::encode, <u16 as Codec>::read, put_u16, decode_u16
    #[unwind(9)]
    fn int_u16() { int_contract!(u16, 2, nd::any(), u16::to_le_bytes) }
    /// @fns: <u24 as Codec>::encode, <u24 as Codec>::read, u24::new, u24::get
    #[unwind(9)]
    fn int_u24() { int_contract!(u24, 3, any24(), le24) }
    /// @fns: <u32 as Codec>::encode, <u32 as Codec>::read, decode_u32
    #[unwind(10)]
    fn int_u32() { int_contract!(u32, 4, nd::any(), u32::to_le_bytes) }
    /// @fns: <u64 as Codec>::encode, <u64 as Codec>::read, put_u64, decode_u64
    #[unwind(14)]
    fn int_u64() { int_contract!(u64, 8, nd::any(), u64::to_le_bytes) }
    /// @fns: <u128 as Codec>::encode, <u128 as Codec>::read
    #[unwind(22)]
    fn int_u128() { int_contract!(u128, 16, nd::any(), u128::to_le_bytes) }

    /// @fns: <u8 as Codec>::read
    #[unwind(3)]
    fn read_u8() { read_contract!(u8, 1, u8::to_le_bytes) }
    /// @fns: <u16 as Codec>::read
    #[unwind(4)]
    fn read_u16() { read_contract!(u16, 2, u16::to_le_bytes) }
    /// @fns: <u24 as Codec>::read
    #[unwind(5)]
    fn read_u24() { read_contract!(u24, 3, le24) }
    /// @fns: <u32 as Codec>::read
    #[unwind(6)]
    fn read_u32() { read_contract!(u32, 4, u32::to_le_bytes) }
    /// @fns: <u64 as Codec>::read
    #[unwind(10)]
    fn read_u64() { read_contract!(u64, 8, u64::to_le_bytes) }
    /// @fns: <u128 as Codec>::read
    #[unwind(18)]
    fn read_u128() { read_contract!(u128, 16, u128::to_le_bytes) }

    /// `read_bytes` is `read` from the front of the bytes.
    /// @fns: Codec::read_bytes
    #[unwind(2)]
    fn read_bytes_front() {
        let buf: [u8; 6] = nd::any();
        let n: usize = nd::any();
        nd::assume(n <= 6);
        let d = u32::read_bytes(&buf[..n]);
        if n >= 4 {
            assert!(d == Some(u32::from_le_bytes([buf[0], buf[1], buf[2], buf[3]])), "read_bytes decodes the front");
        } else {
            assert!(d.is_none(), "read_bytes refuses a short buffer");
        }
        cover!(n >= 4, "long enough");
    }

    /// Any sequence of two Reader operations with any lengths: every slice
    /// returned is the next bytes of the buffer, a request for more than is
    /// left is refused and consumes nothing, used + left is the length.
    /// @fns: Reader::take, Reader::sub, Reader::rest, Reader::left, Reader::used, Reader::any_left
    /// @bound: buffers of at most 12 bytes, two operations (the first reaches every reader state; the code is loop-free)
    #[unwind(14)]
    fn reader_ops() {
        let buf: [u8; 12] = nd::any();
        let n: usize = nd::any();
        nd::assume(n <= 12);
        let mut r = Reader::init(&buf[..n]);
        let mut at = 0usize;
        let mut k = 0;
        while k < 2 {
            let op: u8 = nd::any();
            let len: usize = nd::any();
            let probe: usize = nd::any();
            assert!(r.used() == at && r.left() == n - at && r.any_left() == (at < n), "used + left is the length");
            match op {
                0 => match r.take(len) {
                    Some(s) => {
                        assert!(len <= n - at && s.len() == len, "take returns exactly what was asked");
                        if probe < len {
                            assert!(s[probe] == buf[at + probe], "take returns the next bytes");
                        }
                        at += len;
                    }
                    None => assert!(len > n - at, "take within bounds succeeds"),
                },
                1 => match r.sub(len) {
                    Some(mut s) => {
                        assert!(len <= n - at && s.left() == len && s.used() == 0, "sub covers exactly what was asked");
                        if probe < len {
                            let t = s.take(probe + 1).unwrap();
                            assert!(t[probe] == buf[at + probe], "sub reads the next bytes");
                        }
                        at += len;
                    }
                    None => assert!(len > n - at, "sub within bounds succeeds"),
                },
                _ => {
                    let s = r.rest();
                    assert!(s.len() == n - at, "rest returns everything left");
                    if probe < n - at {
                        assert!(s[probe] == buf[at + probe], "rest returns the next bytes");
                    }
                    at = n;
                }
            }
            assert!(r.used() == at && r.left() == n - at && r.any_left() == (at < n), "used + left is the length");
            k += 1;
        }
        cover!(at > 3 && at < n, "partly consumed");
    }

    /// Any sequence of two Writer operations: appended bytes land in order
    /// at the end of what was written, an append that does not fit is refused
    /// and changes nothing, no byte outside the capacity changes.
    /// @fns: Writer::extend_from_slice, Writer::push, Writer::left, Writer::used, Writer::used_slice, Writer::mut_used_slice
    /// @bound: capacity and appended slices of at most 8 bytes, two operations (the first reaches every writer state)
    #[unwind(13)]
    fn writer_ops() {
        let init: [u8; 10] = nd::any();
        let mut buf = init;
        let cap: usize = nd::any();
        nd::assume(cap <= 8);
        let mut expect = init;
        let mut at = 0usize;
        {
            let mut w = Writer::init(&mut buf[..cap]);
            let mut k = 0;
            while k < 2 {
                let data: [u8; 8] = nd::any();
                let len: usize = nd::any();
                let push: bool = nd::any();
                nd::assume(len <= 8);
                assert!(w.used() == at && w.left() == cap - at, "used + left is the capacity");
                if push {
                    let r = w.push(data[0]);
                    if at < cap {
                        assert!(r == Some(data[0]), "push within capacity succeeds");
                        expect[at] = data[0];
                        at += 1;
                    } else {
                        assert!(r.is_none(), "push beyond capacity is refused");
                    }
                } else {
                    let r = w.extend_from_slice(&data[..len]);
                    if len <= cap - at {
                        assert!(r == Some(len), "append within capacity reports its length");
                        let mut i = 0;
                        while i < 8 {
                            if i < len {
                                expect[at + i] = data[i];
                            }
                            i += 1;
                        }
                        at += len;
                    } else {
                        assert!(r.is_none(), "append beyond capacity is refused");
                    }
                }
                assert!(w.used() == at && w.left() == cap - at, "used + left is the capacity");
                k += 1;
            }
            let p: usize = nd::any();
            nd::assume(p < 8);
            assert!(w.used_slice().len() == at, "used_slice is what was written");
            if p < at {
                assert!(w.used_slice()[p] == expect[p], "used_slice is what was written");
                assert!(w.mut_used_slice()[p] == expect[p], "mut_used_slice is what was written");
            }
        }
        let q: usize = nd::any();
        nd::assume(q < 10);
        assert!(buf[q] == expect[q], "only the appended bytes changed");
        cover!(at == 8, "filled");
        cover!(at < cap && at > 0, "partly filled");
    }
}
