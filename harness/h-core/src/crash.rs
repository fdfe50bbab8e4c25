//! Ends a thread's writing at a chosen step: the calls by which the program changes files go through
//! here, and after the step the process "died" they change nothing any more.
#![allow(clippy::missing_safety_doc)]
use std::cell::Cell;

use libc::{c_char, c_int, c_void, mode_t, size_t, ssize_t};

thread_local! {
    /// steps left; negative: not armed
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    static PART: Cell<u64> = const { Cell::new(0) };
    static DEAD: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f`, whose changes to files end in step `at`; when that is a write, `part` / 2^32 of it is
/// done. Tells whether the end came.
pub fn run<T>(at: u64, part: u64, f: impl FnOnce() -> T) -> (T, bool) {
    LEFT.with(|x| x.set(at as i64));
    PART.with(|x| x.set(part & 0xffff_ffff));
    DEAD.with(|x| x.set(false));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LEFT.with(|x| x.set(-1));
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    (r, DEAD.with(|x| x.replace(false)))
}

enum Now {
    Go,
    Last,
    Dead,
}

fn step() -> Now {
    LEFT.try_with(|x| {
        let n = x.get();
        if n < 0 {
            return Now::Go;
        }
        if DEAD.with(|d| d.get()) {
            return Now::Dead;
        }
        if n == 0 {
            DEAD.with(|d| d.set(true));
            return Now::Last;
        }
        x.set(n - 1);
        Now::Go
    })
    .unwrap_or(Now::Go)
}

fn io() -> c_int {
    unsafe { *libc::__errno_location() = libc::EIO };
    -1
}

macro_rules! stop {
    ($real:expr) => {
        match step() {
            Now::Go => $real as c_int,
            _ => io(),
        }
    };
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let real = |n: size_t| libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    if fd <= 2 {
        return real(n);
    }
    match step() {
        Now::Go => real(n),
        Now::Last => {
            let k = ((n as u128 * PART.with(|x| x.get()) as u128) >> 32) as usize;
            if k > 0 {
                real(k);
            }
            io() as ssize_t
        }
        Now::Dead => io() as ssize_t,
    }
}

unsafe fn open_at(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int;
    if flags & (libc::O_CREAT | libc::O_TRUNC) == 0 {
        return real();
    }
    stop!(real())
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    stop!(libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, 0))
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    stop!(libc::syscall(libc::SYS_unlinkat, dir, path, flags))
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    stop!(libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, libc::AT_REMOVEDIR))
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    stop!(libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode))
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    stop!(libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0))
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    stop!(libc::syscall(libc::SYS_ftruncate, fd, n))
}
