//! Deterministic replacement of `getrandom` for the verification harness.
//!
//! The library under test seeds its generators and default hash builders from the operating system.
//! With this stand-in the "entropy" is a per-thread splitmix64 stream set by the harness, so that
//! every observed execution can be replayed from its seed.
use std::cell::Cell;
use std::num::NonZeroU32;

thread_local!(static STATE: Cell<u64> = const { Cell::new(0x9E37_79B9_7F4A_7C15) });

/// Sets the stream of the current thread.
pub fn verif_seed(seed: u64) {
    STATE.with(|s| s.set(seed));
}

fn next() -> u64 {
    STATE.with(|s| {
        let x = s.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        s.set(x);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

/// Fills `dest` from the stream of the current thread.
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    for chunk in dest.chunks_mut(8) {
        let bytes = next().to_le_bytes();
        chunk.copy_from_slice(&bytes[..chunk.len()]);
    }
    Ok(())
}

/// Never produced; part of the replaced interface.
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNKNOWN: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31) });
    pub const UNAVAILABLE: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31 | 1) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom stand-in error {}", self.0)
    }
}

impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Error(code)
    }
}

impl From<Error> for std::io::Error {
    fn from(err: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, err)
    }
}

impl std::error::Error for Error {}
