//! Every source of randomness the code under test can reach, made deterministic: the `getrandom`
//! crate 0.2 (OsRng, thread_rng) and the libc symbol `getrandom` that std uses to key its hash maps.
//! The stream is per OS thread and restarts from a fixed seed on every new OS thread.
use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x5157_5EED) };
}

/// Restarts this OS thread's stream.
pub fn mc_seed(seed: u64) {
    STATE.with(|s| s.set(seed));
}

fn next() -> u64 {
    STATE.with(|s| {
        let v = s.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        s.set(v);
        let mut z = v;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

fn fill(dest: &mut [u8]) {
    for chunk in dest.chunks_mut(8) {
        let v = next().to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
}

#[export_name = "getrandom"]
pub unsafe extern "C" fn libc_getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(unsafe { std::slice::from_raw_parts_mut(buf, len) });
    len as isize
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(core::num::NonZeroU32);
impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { core::num::NonZeroU32::new_unchecked(1 << 31) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> core::num::NonZeroU32 {
        self.0
    }
}
impl From<core::num::NonZeroU32> for Error {
    fn from(c: core::num::NonZeroU32) -> Self {
        Error(c)
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::error::Error for Error {}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    fill(dest);
    Ok(())
}
