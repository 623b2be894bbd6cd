//! Raw system calls, used by the simulator itself: none of these go through
//! the interposed libc symbols.
use core::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
#[inline]
pub unsafe fn syscall3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    syscall6(n, a, b, c, 0, 0, 0)
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        syscall6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
    }
}
pub fn futex_wake(addr: *const u32) {
    unsafe {
        syscall6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        syscall3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}
pub fn write_all(fd: i32, mut buf: &[u8]) {
    while !buf.is_empty() {
        let r = unsafe { syscall3(libc::SYS_write, fd as i64, buf.as_ptr() as i64, buf.len() as i64) };
        if r == -(libc::EINTR as i64) || r == -(libc::EAGAIN as i64) { continue; }
        if r <= 0 { return; }
        buf = &buf[r as usize..];
    }
}
pub fn eprint(s: &str) {
    write_all(2, s.as_bytes());
}
pub fn mmap(addr: usize, len: usize, prot: i32, flags: i32) -> i64 {
    unsafe { syscall6(libc::SYS_mmap, addr as i64, len as i64, prot as i64, flags as i64, -1, 0) }
}
/// Real monotonic clock (controller only; never read inside a simulation).
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { syscall3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}
