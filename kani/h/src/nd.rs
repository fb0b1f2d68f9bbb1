//! Nondeterministic values: symbolic under Kani, read from a recorded stream
//! of bytes in a native replay. A harness is one piece of code for both.

#[cfg(kani)]
pub use kani::any;

#[cfg(kani)]
#[inline(always)]
pub fn assume(c: bool) {
    kani::assume(c)
}

#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;
    thread_local! { static S: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0)); }
    pub struct AssumeFailed;
    pub fn load(v: Vec<u8>) {
        S.with(|s| *s.borrow_mut() = (v, 0));
    }
    fn byte() -> u8 {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.1;
            s.1 += 1;
            s.0.get(i).copied().unwrap_or(0)
        })
    }
    pub trait Nd: Sized {
        fn nd() -> Self;
    }
    macro_rules! ints { ($($t:ty),*) => { $( impl Nd for $t {
        fn nd() -> Self {
            let mut b = [0u8; core::mem::size_of::<$t>()];
            for x in b.iter_mut() { *x = byte(); }
            <$t>::from_le_bytes(b)
        }
    } )* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64);
    impl Nd for bool {
        fn nd() -> Self {
            byte() & 1 == 1
        }
    }
    impl<T: Nd, const N: usize> Nd for [T; N] {
        fn nd() -> Self {
            [(); N].map(|_| T::nd())
        }
    }
    pub fn any<T: Nd>() -> T {
        T::nd()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
}
#[cfg(not(kani))]
pub use native::*;

/// Reachability guard: must be satisfiable, or the harness is vacuous.
#[macro_export]
macro_rules! cover {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        let _ = $c;
    };
}

/// `harnesses! { #[unwind(N)] fn name() { .. } .. }`
#[macro_export]
macro_rules! harnesses {
    (@one [] { $($rest:tt)* }) => { $($rest)* };
    (@one [$set:ident] { $($rest:tt)* }) => { $set! { $($rest)* } };
    ($( $(#[doc = $d:literal])* $(#[stub($($s:tt)*)])* $(#[stubs($set:ident)])? #[unwind($n:literal)] fn $name:ident() $body:block )*) => {
        $( harnesses! { @one [$($set)?] {
            $(#[doc = $d])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($n))]
            $(#[cfg_attr(kani, kani::stub($($s)*))])*
            #[allow(unused_mut, unused_variables)]
            pub fn $name() $body
        } } )*
        #[cfg(not(kani))]
        pub const REGISTRY: &[(&str, fn())] = &[ $( (concat!(module_path!(), "::", stringify!($name)), $name) ),* ];
    };
}
