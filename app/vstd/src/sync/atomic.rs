pub use std::sync::atomic::*;
use crate::rt::point;
macro_rules! common {
    ($n:ident, $t:ty) => {
        #[derive(Debug, Default)]
        pub struct $n(std::sync::atomic::$n);
        impl $n {
            pub const fn new(x: $t) -> Self {
                $n(std::sync::atomic::$n::new(x))
            }
            pub fn load(&self, o: Ordering) -> $t {
                point();
                self.0.load(o)
            }
            pub fn store(&self, x: $t, o: Ordering) {
                point();
                self.0.store(x, o)
            }
            pub fn swap(&self, x: $t, o: Ordering) -> $t {
                point();
                self.0.swap(x, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                point();
                self.0.fetch_update(s, f, g)
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
        }
        impl From<$t> for $n {
            fn from(x: $t) -> Self {
                $n::new(x)
            }
        }
    };
}
macro_rules! int {
    ($n:ident, $t:ty) => {
        common!($n, $t);
        impl $n {
            pub fn fetch_add(&self, x: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_add(x, o)
            }
            pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_sub(x, o)
            }
            pub fn fetch_max(&self, x: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_max(x, o)
            }
            pub fn fetch_min(&self, x: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_min(x, o)
            }
        }
    };
}
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);
int!(AtomicU64, u64);
int!(AtomicI64, i64);
int!(AtomicU32, u32);
int!(AtomicI32, i32);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_or(&self, x: bool, o: Ordering) -> bool {
        point();
        self.0.fetch_or(x, o)
    }
    pub fn fetch_and(&self, x: bool, o: Ordering) -> bool {
        point();
        self.0.fetch_and(x, o)
    }
}
