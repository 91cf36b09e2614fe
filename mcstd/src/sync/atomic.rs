//! Atomics whose every operation is a scheduling point.  Sequentially consistent: weaker orderings
//! are not modelled.
pub use ::std::sync::atomic::*;
use ::std::sync::atomic as real;

use crate::mc;

macro_rules! int_atomic {
    ($name:ident, $t:ty) => {
        #[derive(Debug, Default)]
        #[repr(transparent)]
        pub struct $name(real::$name);
        impl $name {
            pub const fn new(v: $t) -> Self { Self(real::$name::new(v)) }
            pub fn load(&self, o: Ordering) -> $t { mc::point(); self.0.load(o) }
            pub fn store(&self, v: $t, o: Ordering) { mc::point(); self.0.store(v, o) }
            pub fn swap(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.swap(v, o) }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { mc::point(); self.0.compare_exchange(c, n, s, f) }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { mc::point(); self.0.compare_exchange(c, n, s, f) }
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_add(v, o) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_sub(v, o) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_and(v, o) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_or(v, o) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_max(v, o) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_min(v, o) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_xor(v, o) }
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { mc::point(); self.0.fetch_nand(v, o) }
            /// (a read, then as many attempts as it takes, as in `std`)
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut with: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = with(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        Ok(x) => return Ok(x),
                        Err(x) => prev = x,
                    }
                }
                Err(prev)
            }
            pub fn try_update(&self, s: Ordering, f: Ordering, with: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(s, f, with) }
            pub fn update(&self, s: Ordering, f: Ordering, mut with: impl FnMut($t) -> $t) -> $t { self.fetch_update(s, f, |x| Some(with(x))).unwrap_or_else(|x| x) }
            pub const fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
        }
        impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
    };
}
int_atomic!(AtomicU8, u8);
int_atomic!(AtomicU16, u16);
int_atomic!(AtomicU32, u32);
int_atomic!(AtomicU64, u64);
int_atomic!(AtomicUsize, usize);
int_atomic!(AtomicI8, i8);
int_atomic!(AtomicI16, i16);
int_atomic!(AtomicI32, i32);
int_atomic!(AtomicI64, i64);
int_atomic!(AtomicIsize, isize);

#[derive(Debug, Default)]
#[repr(transparent)]
pub struct AtomicBool(real::AtomicBool);
impl AtomicBool {
    pub const fn new(v: bool) -> Self { Self(real::AtomicBool::new(v)) }
    pub fn load(&self, o: Ordering) -> bool { mc::point(); self.0.load(o) }
    pub fn store(&self, v: bool, o: Ordering) { mc::point(); self.0.store(v, o) }
    pub fn swap(&self, v: bool, o: Ordering) -> bool { mc::point(); self.0.swap(v, o) }
    pub fn compare_exchange(&self, c: bool, n: bool, s: Ordering, f: Ordering) -> Result<bool, bool> { mc::point(); self.0.compare_exchange(c, n, s, f) }
    pub fn compare_exchange_weak(&self, c: bool, n: bool, s: Ordering, f: Ordering) -> Result<bool, bool> { mc::point(); self.0.compare_exchange(c, n, s, f) }
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { mc::point(); self.0.fetch_and(v, o) }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { mc::point(); self.0.fetch_or(v, o) }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { mc::point(); self.0.fetch_xor(v, o) }
    pub fn fetch_not(&self, o: Ordering) -> bool { mc::point(); self.0.fetch_xor(true, o) }
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { mc::point(); self.0.fetch_nand(v, o) }
    /// (a read, then as many attempts as it takes, as in `std`)
    pub fn fetch_update<F: FnMut(bool) -> Option<bool>>(&self, s: Ordering, f: Ordering, mut with: F) -> Result<bool, bool> {
        let mut prev = self.load(f);
        while let Some(next) = with(prev) {
            match self.compare_exchange_weak(prev, next, s, f) {
                Ok(x) => return Ok(x),
                Err(x) => prev = x,
            }
        }
        Err(prev)
    }
    pub fn try_update(&self, s: Ordering, f: Ordering, with: impl FnMut(bool) -> Option<bool>) -> Result<bool, bool> { self.fetch_update(s, f, with) }
    pub fn update(&self, s: Ordering, f: Ordering, mut with: impl FnMut(bool) -> bool) -> bool { self.fetch_update(s, f, |x| Some(with(x))).unwrap_or_else(|x| x) }
    pub const fn as_ptr(&self) -> *mut bool { self.0.as_ptr() }
    pub fn get_mut(&mut self) -> &mut bool { self.0.get_mut() }
    pub fn into_inner(self) -> bool { self.0.into_inner() }
}
impl From<bool> for AtomicBool { fn from(v: bool) -> Self { Self::new(v) } }
