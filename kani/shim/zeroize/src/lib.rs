//! Verification stand-in for the `zeroize` crate (used only under Kani).
//! Same traits, same derive macros, same observable effect (every byte of the
//! target becomes zero), but written without the volatile byte loops that
//! make symbolic execution of drop glue explode.
#![no_std]
extern crate alloc;
use alloc::boxed::Box;
#[cfg(feature = "zeroize_derive")]
pub use zeroize_derive::{Zeroize, ZeroizeOnDrop};

pub trait Zeroize {
    fn zeroize(&mut self);
}
pub trait ZeroizeOnDrop {}

macro_rules! ints { ($($t:ty = $z:expr),+) => { $(
    impl Zeroize for $t {
        #[inline(always)]
        fn zeroize(&mut self) {
            *self = $z;
        }
    }
    impl<const N: usize> Zeroize for [$t; N] {
        #[inline(always)]
        fn zeroize(&mut self) {
            *self = [$z; N];
        }
    }
    impl Zeroize for [$t] {
        #[inline(always)]
        fn zeroize(&mut self) {
            // the all-zero bit pattern is the default of every type listed
            unsafe { core::ptr::write_bytes(self.as_mut_ptr(), 0, self.len()) }
        }
    }
)+ } }
ints!(u8 = 0, u16 = 0, u32 = 0, u64 = 0, u128 = 0, usize = 0, i8 = 0, i16 = 0, i32 = 0, i64 = 0,
    i128 = 0, isize = 0, bool = false);
impl<Z: Zeroize + ?Sized> Zeroize for Box<Z> {
    #[inline(always)]
    fn zeroize(&mut self) {
        self.as_mut().zeroize()
    }
}

#[doc(hidden)]
pub mod __internal {
    use super::*;
    pub trait AssertZeroizeOnDrop {
        fn zeroize_or_on_drop(self);
    }
    impl<T: ZeroizeOnDrop + ?Sized> AssertZeroizeOnDrop for &&mut T {
        fn zeroize_or_on_drop(self) {}
    }
    pub trait AssertZeroize {
        fn zeroize_or_on_drop(&mut self);
    }
    impl<T: Zeroize + ?Sized> AssertZeroize for T {
        fn zeroize_or_on_drop(&mut self) {
            self.zeroize();
        }
    }
}
