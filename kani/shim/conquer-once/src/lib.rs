//! Verification stand-in for `conquer_once::spin::OnceCell` (used only under
//! Kani): the same write-once cell, single-threaded.
#![no_std]
pub mod spin {
    use core::cell::UnsafeCell;
    pub struct OnceCell<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Sync for OnceCell<T> {}
    unsafe impl<T> Send for OnceCell<T> {}
    #[derive(Debug)]
    pub struct TryInitError;
    #[derive(Debug)]
    pub struct TryGetError;
    #[derive(Debug)]
    pub struct WouldBlockError;
    impl<T> OnceCell<T> {
        pub const fn uninit() -> Self {
            OnceCell(UnsafeCell::new(None))
        }
        pub fn is_initialized(&self) -> bool {
            unsafe { (*self.0.get()).is_some() }
        }
        pub fn try_get(&self) -> Result<&T, TryGetError> {
            unsafe { (*self.0.get()).as_ref().ok_or(TryGetError) }
        }
        pub fn get(&self) -> Option<&T> {
            self.try_get().ok()
        }
        pub fn try_init_once(&self, f: impl FnOnce() -> T) -> Result<(), TryInitError> {
            if self.is_initialized() {
                return Err(TryInitError);
            }
            unsafe { *self.0.get() = Some(f()) }
            Ok(())
        }
        pub fn init_once(&self, f: impl FnOnce() -> T) {
            let _ = self.try_init_once(f);
        }
        pub fn try_get_or_init(&self, f: impl FnOnce() -> T) -> Result<&T, WouldBlockError> {
            let _ = self.try_init_once(f);
            unsafe { (*self.0.get()).as_ref().ok_or(WouldBlockError) }
        }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            self.try_get_or_init(f).unwrap()
        }
    }
}
