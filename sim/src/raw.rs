//! Raw system calls that bypass both libc and the simulator.
use std::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe {
            sys6(
                libc::SYS_write,
                fd as i64,
                b.as_ptr() as i64,
                b.len() as i64,
                0,
                0,
                0,
            )
        };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn exit(code: i32) -> ! {
    unsafe {
        sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
pub fn futex_wait(w: &std::sync::atomic::AtomicU32, v: u32) {
    unsafe {
        sys6(
            libc::SYS_futex,
            w.as_ptr() as i64,
            i64::from(libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG),
            i64::from(v),
            0,
            0,
            0,
        );
    }
}
pub fn futex_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe {
        sys6(
            libc::SYS_futex,
            w.as_ptr() as i64,
            i64::from(libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG),
            i64::from(i32::MAX),
            0,
            0,
            0,
        );
    }
}
