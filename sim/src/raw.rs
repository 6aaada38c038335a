//! Raw system calls that bypass every interposed libc symbol.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    ret
}

/// A raw call with the libc convention: -1 and errno on failure.
#[inline(always)]
pub unsafe fn libc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = sys6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
}

pub unsafe fn futex_wake(addr: *const u32) {
    sys6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
}
