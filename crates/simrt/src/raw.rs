//! Raw system calls that bypass the interposed libc entry points.
use core::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    ret
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) -> i64 {
    syscall6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0)
}

pub unsafe fn futex_wake(addr: *const u32, n: i64) -> i64 {
    syscall6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, n, 0, 0, 0)
}

pub unsafe fn clock_ns(clk: i32) -> u64 {
    let mut ts = [0i64; 2];
    syscall6(libc::SYS_clock_gettime, clk as i64, ts.as_mut_ptr() as i64, 0, 0, 0, 0);
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

pub fn wall_ns() -> u64 {
    unsafe { clock_ns(libc::CLOCK_MONOTONIC) }
}

pub unsafe fn exit_group(code: i32) -> ! {
    loop {
        syscall6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
}
