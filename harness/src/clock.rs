//! Time as the code under test sees it, shifted per thread: libc's `clock_gettime` is replaced by one that adds
//! the calling thread's offset, so that hours and years pass between two operations without waiting.
use std::{cell::Cell, ffi::c_long};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(number: c_long, ...) -> c_long;
}

#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: c_long = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: c_long = 113;

thread_local! {
    static OFFSET: Cell<i64> = const { Cell::new(0) };
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let r = unsafe { syscall(SYS_CLOCK_GETTIME, id as c_long, ts) } as i32;
    if r == 0 {
        unsafe { (*ts).sec += OFFSET.try_with(Cell::get).unwrap_or(0) };
    }
    r
}

/// Let this many seconds pass for the calling thread; undone when dropped.
pub struct Later(i64);

impl Later {
    pub fn now() -> Self {
        Self(OFFSET.get())
    }
    pub fn pass(&self, seconds: i64) {
        OFFSET.set(OFFSET.get().saturating_add(seconds).min(1 << 34));
    }
}

impl Drop for Later {
    fn drop(&mut self) {
        OFFSET.set(self.0);
    }
}
