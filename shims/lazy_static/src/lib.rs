//! Sequential stand-in for lazy_static: initialised on first use.
use std::cell::UnsafeCell;
pub struct Lazy<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Lazy<T> {}
impl<T> Lazy<T> {
    pub const INIT: Lazy<T> = Lazy(UnsafeCell::new(None));
    pub fn get(&'static self, f: fn() -> T) -> &'static T {
        unsafe {
            let p = &mut *self.0.get();
            if p.is_none() { *p = Some(f()); }
            (*self.0.get()).as_ref().unwrap()
        }
    }
}
#[macro_export]
macro_rules! lazy_static {
    ($($(#[$m:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr;)*) => { $(
        #[allow(non_camel_case_types)]
        $v struct $n { _p: () }
        #[allow(non_upper_case_globals)]
        $v static $n: $n = $n { _p: () };
        impl ::std::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                static LAZY: $crate::Lazy<$t> = $crate::Lazy::INIT;
                LAZY.get(|| $e)
            }
        }
    )* };
}
