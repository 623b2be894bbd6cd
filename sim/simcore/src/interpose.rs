#![allow(non_upper_case_globals)]
//! libc symbols the statically linked program resolves to instead of glibc's.
use crate::fs::*;
use crate::raw;
use crate::sched::*;
use libc::*;
use std::ffi::CStr;

unsafe fn seterr(e: i32) {
    *__errno_location() = e;
}
macro_rules! ret {
    ($e:expr, $t:ty) => {
        match $e {
            Ok(v) => v as $t,
            Err(e) => { seterr(e as i32); -1 as $t }
        }
    };
}
macro_rules! rawret {
    ($n:expr, $($a:expr),*) => {{
        let a: Vec<i64> = Vec::new(); let _ = a;
        let args = [$($a as i64),*];
        let g = |i: usize| if i < args.len() { args[i] } else { 0 };
        let r = raw::syscall6($n, g(0), g(1), g(2), g(3), g(4), g(5));
        if r < 0 && r > -4096 { seterr(-r as i32); -1 } else { r }
    }};
}
unsafe fn real(name: &[u8]) -> *mut c_void {
    let p = dlsym(RTLD_NEXT, name.as_ptr() as *const c_char);
    if p.is_null() {
        raw::eprint("dst: missing libc symbol\n");
        raw::exit_group(3);
    }
    p
}
type PtCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
pub fn real_pthread_create() -> PtCreate {
    unsafe { core::mem::transmute(real(b"pthread_create\0")) }
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a str {
    CStr::from_ptr(p).to_str().unwrap_or("/?")
}
fn in_fs(p: &str) -> bool {
    p == ROOT || p.starts_with("/simfs/")
}
fn sfd(fd: i32) -> bool {
    fd >= FD0 && active()
}

// ---------------------------------------------------------------- threads
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut pthread_t, attr: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, a: *mut c_void) -> c_int {
    if !active() {
        return real_pthread_create()(th, attr, f, a);
    }
    let s = sim();
    s.point(0x40 << 32);
    let tid = s.new_thread(format!("T{}", s.thr.len()));
    s.thr[tid].start = Some((f, a));
    let e = spawn_real(tid);
    *th = tid as pthread_t + 1;
    s.point(0x41 << 32);
    e
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, ret: *mut *mut c_void) -> c_int {
    if !active() {
        let f: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = core::mem::transmute(real(b"pthread_join\0"));
        return f(th, ret);
    }
    let s = sim();
    let t = th as usize - 1;
    s.point(0x42 << 32);
    while s.thr[t].st != St::Done {
        s.block(St::Join(t), None);
    }
    if !ret.is_null() { *ret = s.thr[t].ret; }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: pthread_t) -> c_int {
    if !active() {
        let f: unsafe extern "C" fn(pthread_t) -> c_int = core::mem::transmute(real(b"pthread_detach\0"));
        return f(th);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(_th: pthread_t, name: *const c_char) -> c_int {
    if active() {
        let s = sim();
        s.thr[s.cur].name = cstr(name).to_string();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn prctl(op: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int {
    if active() {
        if op == PR_SET_NAME {
            let s = sim();
            s.thr[s.cur].name = cstr(a as *const c_char).to_string();
        }
        return 0;
    }
    rawret!(SYS_prctl, op, a, b, c, d) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: unsafe extern "C" fn(*mut u8), obj: *mut u8, _dso: *mut u8) -> c_int {
    if active() {
        let s = sim();
        let c = s.cur;
        s.thr[c].dtors.push((f, obj));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() { sim().yield_now(); } else { raw::syscall3(SYS_sched_yield, 0, 0, 0); }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: size_t, set: *mut cpu_set_t) -> c_int {
    if !active() {
        let r = raw::syscall3(SYS_sched_getaffinity, pid as i64, n as i64, set as i64);
        return if r < 0 { seterr(-r as i32); -1 } else { 0 };
    }
    core::ptr::write_bytes(set as *mut u8, 0, n);
    for i in 0..sim().cfg.cpus.clamp(1, 8) as usize { CPU_SET(i, &mut *set); }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if active() {
        if name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF { return sim().cfg.cpus as c_long; }
        if name == _SC_PAGESIZE { return 4096; }
        if name == _SC_PHYS_PAGES { return 1 << 20; }
        if name == _SC_AVPHYS_PAGES { return 1 << 19; }
        if name == _SC_OPEN_MAX { return 1024; }
    }
    let f: unsafe extern "C" fn(c_int) -> c_long = core::mem::transmute(real(b"sysconf\0"));
    f(name)
}

// ---------------------------------------------------------------- time
fn sim_clock(clk: clockid_t) -> u64 {
    let s = sim();
    s.bump();
    s.now += 300;
    if clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE {
        if s.cfg.clock_jump_p > 0 && !s.frozen {
            let (p, m) = (s.cfg.clock_jump_p, s.cfg.clock_jump_max_ns);
            // an even maximum: forward jumps only; odd: an odd value jumps back
            let j = s.choose(S_CLOCK, 0, |r| if r.chance(p, 10_000) { let j = 2 + r.below(m); if m & 1 == 0 { j & !1 } else { j } } else { 0 });
            if j > 0 {
                let j = j as i64;
                s.wall += if j & 1 == 1 { -j } else { j };
                s.fault("clock_jump");
            }
        }
        (s.now as i64 + s.wall) as u64
    } else {
        s.now
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if !active() {
        let r = raw::syscall3(SYS_clock_gettime, clk as i64, ts as i64, 0);
        return if r < 0 { seterr(-r as i32); -1 } else { 0 };
    }
    let n = sim_clock(clk);
    (*ts).tv_sec = (n / SEC) as time_t;
    (*ts).tv_nsec = (n % SEC) as c_long;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() { *t = ts.tv_sec; }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return rawret!(SYS_nanosleep, req, rem) as c_int;
    }
    let s = sim();
    let d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    s.bump();
    let dl = s.now + d.max(1);
    s.block(St::Sleep, Some(dl));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return -raw::syscall6(SYS_clock_nanosleep, _clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int;
    }
    let s = sim();
    let d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    s.bump();
    let dl = if flags & TIMER_ABSTIME != 0 { d } else { s.now + d.max(1) };
    s.block(St::Sleep, Some(dl));
    0
}

// ---------------------------------------------------------------- syscall(2)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if !active() {
        let r = raw::syscall6(n, a, b, c, d, e, f);
        return if r < 0 && r > -4096 { seterr(-r as i32); -1 } else { r };
    }
    let s = sim();
    let r: i64 = match n {
        SYS_futex => {
            let op = b as i32 & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            let rt = b as i32 & FUTEX_CLOCK_REALTIME != 0;
            match op {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    let dl = if d != 0 {
                        let ts = &*(d as *const timespec);
                        if ts.tv_sec < 0 { Some(s.now) } else {
                            let v = (ts.tv_sec as u64).saturating_mul(SEC).saturating_add(ts.tv_nsec as u64);
                            Some(if op == FUTEX_WAIT { s.now.saturating_add(v) } else if rt { (v as i64 - s.wall).max(0) as u64 } else { v })
                        }
                    } else { None };
                    let bits = if op == FUTEX_WAIT { u32::MAX } else { f as u32 };
                    s.futex_wait(a as usize, c as u32, bits, dl)
                }
                FUTEX_WAKE => s.futex_wake(a as usize, c.clamp(0, i32::MAX as i64) as u32, u32::MAX),
                FUTEX_WAKE_BITSET => s.futex_wake(a as usize, c.clamp(0, i32::MAX as i64) as u32, f as u32),
                _ => { raw::eprint("dst: unsupported futex op\n"); raw::exit_group(3) }
            }
        }
        SYS_getrandom => {
            let buf = core::slice::from_raw_parts_mut(a as *mut u8, b as usize);
            s.random_bytes(buf);
            b
        }
        SYS_gettid => s.cur as i64 + 2,
        SYS_copy_file_range | SYS_sendfile | SYS_splice => -(ENOSYS as i64),
        SYS_accept4 => -(ENOSYS as i64),
        SYS_epoll_create1 => sim().net_fd(crate::net::Sock::Epoll(Default::default())) as i64,
        SYS_statx => return statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx) as c_long,
        _ => {
            raw::eprint(&format!("dst: unexpected syscall {n}\n"));
            raw::syscall6(n, a, b, c, d, e, f)
        }
    };
    if r < 0 && r > -4096 { seterr(-r as i32); -1 } else { r }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !active() {
        return rawret!(SYS_getrandom, buf, n, flags) as ssize_t;
    }
    sim().random_bytes(core::slice::from_raw_parts_mut(buf as *mut u8, n));
    n as ssize_t
}

// ---------------------------------------------------------------- files
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        let p = cstr(path);
        if in_fs(p) {
            return ret!(sim().f_open(p, flags), c_int);
        }
        let virt: Option<Vec<u8>> = match p {
            "/dev/urandom" | "/dev/random" => { let mut v = vec![0u8; 64]; sim().random_bytes(&mut v); Some(v) }
            "/proc/meminfo" => Some(b"MemTotal:        4194304 kB\nMemFree:         2097152 kB\nMemAvailable:    3145728 kB\nBuffers:               0 kB\nCached:                0 kB\nShmem:                 0 kB\nSReclaimable:          0 kB\nSwapTotal:             0 kB\nSwapFree:              0 kB\n".to_vec()),
            _ => None,
        };
        if let Some(v) = virt {
            return sim().alloc_fd(FdKind::Virt(v, 0));
        }
        seterr(ENOENT);
        return -1;
    }
    rawret!(SYS_open, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
unsafe fn at_path(dirfd: c_int, path: *const c_char) -> Option<String> {
    let p = cstr(path);
    if p.starts_with('/') { return Some(p.to_string()); }
    if sfd(dirfd) {
        if let Some(FdKind::Dir(d)) = sim().fs.fds.get(&dirfd) {
            return Some(format!("{d}/{p}"));
        }
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        if let Some(p) = at_path(dirfd, path) {
            if in_fs(&p) { return ret!(sim().f_open(&p, flags), c_int); }
        }
        seterr(ENOENT);
        return -1;
    }
    rawret!(SYS_openat, dirfd, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sfd(fd) { return ret!(sim().f_close(fd).map(|_| 0), c_int); }
    rawret!(SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sfd(fd) {
        let b = core::slice::from_raw_parts_mut(buf as *mut u8, n);
        if let Some(FdKind::Net(_)) = sim().fs.fds.get(&fd) { return ret!(sim().net_recv(fd, b, false), ssize_t); }
        return ret!(sim().f_read(fd, b, None), ssize_t);
    }
    rawret!(SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if sfd(fd) { return ret!(sim().f_read(fd, core::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as u64)), ssize_t); }
    rawret!(SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sfd(fd) {
        let b = core::slice::from_raw_parts(buf as *const u8, n);
        if let Some(FdKind::Net(_)) = sim().fs.fds.get(&fd) { return ret!(sim().net_send(fd, b), ssize_t); }
        return ret!(sim().f_write(fd, b, None), ssize_t);
    }
    if active() && fd <= 2 && sim().log.is_none() { return n as ssize_t; }
    rawret!(SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if sfd(fd) { return ret!(sim().f_write(fd, core::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)), ssize_t); }
    rawret!(SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sfd(fd) {
        let mut v = Vec::new();
        for i in 0..n as usize {
            let e = &*iov.add(i);
            v.extend_from_slice(core::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len));
        }
        return write(fd, v.as_ptr() as *const c_void, v.len());
    }
    if active() && fd <= 2 && sim().log.is_none() {
        return (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum::<usize>() as ssize_t;
    }
    rawret!(SYS_writev, fd, iov, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sfd(fd) {
        let total: usize = (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum();
        let mut v = vec![0u8; total];
        let r = read(fd, v.as_mut_ptr() as *mut c_void, total);
        if r > 0 {
            let mut off = 0usize;
            for i in 0..n as usize {
                let e = &*iov.add(i);
                let k = e.iov_len.min(r as usize - off);
                core::ptr::copy_nonoverlapping(v.as_ptr().add(off), e.iov_base as *mut u8, k);
                off += k;
            }
        }
        return r;
    }
    rawret!(SYS_readv, fd, iov, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if sfd(fd) { return ret!(sim().f_seek(fd, off, wh), off64_t); }
    rawret!(SYS_lseek, fd, off, wh) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t { lseek64(fd, off, wh) }
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sfd(fd) { return ret!(sim().f_fsync(fd).map(|_| 0), c_int); }
    rawret!(SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sfd(fd) { return fsync(fd); }
    rawret!(SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if sfd(fd) { return ret!(sim().f_trunc(fd, len as u64).map(|_| 0), c_int); }
    rawret!(SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int { ftruncate64(fd, len) }
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sfd(fd) { return ret!(sim().f_flock(fd, op).map(|_| 0), c_int); }
    rawret!(SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if active() && in_fs(cstr(p)) { return ret!(sim().f_unlink(cstr(p), false).map(|_| 0), c_int); }
    if active() { seterr(ENOENT); return -1; }
    rawret!(SYS_unlink, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if active() && in_fs(cstr(p)) { return ret!(sim().f_unlink(cstr(p), true).map(|_| 0), c_int); }
    if active() { seterr(ENOENT); return -1; }
    rawret!(SYS_rmdir, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, p: *const c_char, flags: c_int) -> c_int {
    if active() {
        if let Some(q) = at_path(dirfd, p) {
            if in_fs(&q) { return ret!(sim().f_unlink(&q, flags & AT_REMOVEDIR != 0).map(|_| 0), c_int); }
        }
        seterr(ENOENT);
        return -1;
    }
    rawret!(SYS_unlinkat, dirfd, p, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        if in_fs(cstr(a)) && in_fs(cstr(b)) { return ret!(sim().f_rename(cstr(a), cstr(b)).map(|_| 0), c_int); }
        seterr(EXDEV);
        return -1;
    }
    rawret!(SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        if in_fs(cstr(p)) { return ret!(sim().f_mkdir(cstr(p)).map(|_| 0), c_int); }
        seterr(EACCES);
        return -1;
    }
    rawret!(SYS_mkdir, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if active() { return 0; }
    rawret!(SYS_chmod, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if sfd(fd) { return 0; }
    rawret!(SYS_fchmod, fd, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        let s = cstr(p);
        if in_fs(s) {
            match sim().f_stat(s) {
                Ok(_) => {
                    let n = norm(s);
                    let o = if out.is_null() { malloc(n.len() + 1) as *mut c_char } else { out };
                    core::ptr::copy_nonoverlapping(n.as_ptr(), o as *mut u8, n.len());
                    *o.add(n.len()) = 0;
                    return o;
                }
                Err(e) => { seterr(e); return core::ptr::null_mut(); }
            }
        }
        seterr(ENOENT);
        return core::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = core::mem::transmute(real(b"realpath\0"));
    f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active() { seterr(EINVAL); return -1; }
    rawret!(SYS_readlink, p, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if active() {
        let p = if path.is_null() { "" } else { cstr(path) };
        let r = if p.is_empty() {
            if !sfd(dirfd) { seterr(EBADF); return -1; }
            sim().f_fstat(dirfd)
        } else {
            match at_path(dirfd, path) { Some(q) if in_fs(&q) => sim().f_stat(&q), _ => Err(ENOENT) }
        };
        return match r {
            Ok((dir, len, ino)) => {
                core::ptr::write_bytes(out as *mut u8, 0, core::mem::size_of::<libc::statx>());
                (*out).stx_mask = 0x7ff;
                (*out).stx_mode = (if dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 }) as u16;
                (*out).stx_size = len;
                (*out).stx_ino = ino;
                (*out).stx_nlink = 1;
                (*out).stx_blksize = 4096;
                0
            }
            Err(e) => { seterr(e); -1 }
        };
    }
    rawret!(SYS_statx, dirfd, path, flags, mask, out) as c_int
}
unsafe fn fill_stat(out: *mut stat64, r: Result<(bool, u64, u64), i32>) -> c_int {
    match r {
        Ok((dir, len, ino)) => {
            core::ptr::write_bytes(out as *mut u8, 0, core::mem::size_of::<stat64>());
            (*out).st_mode = if dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
            (*out).st_size = len as off64_t;
            (*out).st_ino = ino;
            (*out).st_nlink = 1;
            (*out).st_blksize = 4096;
            0
        }
        Err(e) => { seterr(e); -1 }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut stat64) -> c_int {
    if active() {
        let q = cstr(p);
        return fill_stat(out, if in_fs(q) { sim().f_stat(q) } else { Err(ENOENT) });
    }
    rawret!(SYS_stat, p, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut stat64) -> c_int {
    if active() { return stat64(p, out); }
    rawret!(SYS_lstat, p, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut stat64) -> c_int {
    if sfd(fd) { return fill_stat(out, sim().f_fstat(fd)); }
    rawret!(SYS_fstat, fd, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if sfd(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => ret!(sim().f_dup(fd), c_int),
            F_GETFD => 1,
            F_GETFL => O_RDWR,
            _ => 0,
        };
    }
    rawret!(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int { fcntl(fd, cmd, arg) }

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if active() {
        let q = cstr(p);
        if !in_fs(q) { seterr(ENOENT); return core::ptr::null_mut(); }
        let fd = match sim().f_open(q, O_RDONLY | O_DIRECTORY) { Ok(f) => f, Err(e) => { seterr(e); return core::ptr::null_mut(); } };
        return fdopendir(fd);
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = core::mem::transmute(real(b"opendir\0"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if sfd(fd) {
        if let Some(FdKind::Dir(d)) = sim().fs.fds.get(&fd).cloned() {
            return match sim().f_list(&d) {
                Ok(entries) => Box::into_raw(Box::new(DirStream { entries, pos: 0, fd, buf: Box::new(core::mem::zeroed()) })) as *mut DIR,
                Err(e) => { let _ = sim().f_close(fd); seterr(e); core::ptr::null_mut() }
            };
        }
        seterr(ENOTDIR);
        return core::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(c_int) -> *mut DIR = core::mem::transmute(real(b"fdopendir\0"));
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if active() {
        let s = &mut *(d as *mut DirStream);
        if s.pos >= s.entries.len() { return core::ptr::null_mut(); }
        let (name, ino, dir) = s.entries[s.pos].clone();
        s.pos += 1;
        s.buf.d_ino = ino;
        s.buf.d_type = if dir { DT_DIR } else { DT_REG };
        s.buf.d_reclen = core::mem::size_of::<dirent64>() as u16;
        let b = name.as_bytes();
        for (i, c) in b.iter().enumerate() { s.buf.d_name[i] = *c as c_char; }
        s.buf.d_name[b.len()] = 0;
        return &mut *s.buf;
    }
    let f: unsafe extern "C" fn(*mut DIR) -> *mut dirent64 = core::mem::transmute(real(b"readdir64\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if active() { return (*(d as *mut DirStream)).fd; }
    let f: unsafe extern "C" fn(*mut DIR) -> c_int = core::mem::transmute(real(b"dirfd\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if active() {
        let b = Box::from_raw(d as *mut DirStream);
        let _ = sim().f_close(b.fd);
        return 0;
    }
    let f: unsafe extern "C" fn(*mut DIR) -> c_int = core::mem::transmute(real(b"closedir\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const pthread_attr_t, n: *mut size_t) -> c_int {
    *n = 4096;
    0
}

/// Errors of nebari carry a backtrace whose addresses differ from process to process.
#[no_mangle]
pub unsafe extern "C" fn _Unwind_Backtrace(_f: *const c_void, _a: *mut c_void) -> c_int { 5 }

// ---------------------------------------------------------------- sockets
unsafe fn port_of(a: *const sockaddr, n: socklen_t) -> Option<u16> {
    if n as usize >= core::mem::size_of::<sockaddr_in>() && (*a).sa_family as i32 == AF_INET { Some(u16::from_be((*(a as *const sockaddr_in)).sin_port)) } else { None }
}
unsafe fn put_addr(a: *mut sockaddr, n: *mut socklen_t, port: u16) {
    if a.is_null() { return; }
    let mut s: sockaddr_in = core::mem::zeroed();
    s.sin_family = AF_INET as u16;
    s.sin_port = port.to_be();
    s.sin_addr.s_addr = 0x7f000001u32.to_be();
    let k = (*n as usize).min(core::mem::size_of::<sockaddr_in>());
    core::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, k);
    *n = core::mem::size_of::<sockaddr_in>() as socklen_t;
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if active() {
        if d != AF_INET || t & 0xf != SOCK_STREAM { seterr(EAFNOSUPPORT); return -1; }
        return sim().net_fd(crate::net::Sock::New);
    }
    rawret!(SYS_socket, d, t, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, out: *mut c_int) -> c_int {
    if active() {
        let (a, b) = sim().net_pair();
        *out = a;
        *out.add(1) = b;
        return 0;
    }
    rawret!(SYS_socketpair, d, t, p, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, n: socklen_t) -> c_int {
    if sfd(fd) { return ret!(port_of(a, n).ok_or(EAFNOSUPPORT).and_then(|p| sim().net_bind(fd, p)).map(|_| 0), c_int); }
    rawret!(SYS_bind, fd, a, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if sfd(fd) { return 0; }
    rawret!(SYS_listen, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, n: socklen_t) -> c_int {
    if sfd(fd) { return ret!(port_of(a, n).ok_or(EAFNOSUPPORT).and_then(|p| sim().net_connect(fd, p)).map(|_| 0), c_int); }
    rawret!(SYS_connect, fd, a, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, n: *mut socklen_t, f: c_int) -> c_int {
    if sfd(fd) {
        return match sim().net_accept(fd) { Ok((c, p)) => { put_addr(a, n, p); c } Err(e) => { seterr(e); -1 } };
    }
    rawret!(SYS_accept4, fd, a, n, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    if sfd(fd) { return match sim().net_names(fd) { Ok((l, _)) => { put_addr(a, n, l); 0 } Err(e) => { seterr(e); -1 } }; }
    rawret!(SYS_getsockname, fd, a, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    if sfd(fd) { return match sim().net_names(fd) { Ok((_, r)) => { put_addr(a, n, r); 0 } Err(e) => { seterr(e); -1 } }; }
    rawret!(SYS_getpeername, fd, a, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: socklen_t) -> c_int {
    if sfd(fd) { return 0; }
    rawret!(SYS_setsockopt, fd, l, o, v, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut socklen_t) -> c_int {
    if sfd(fd) {
        let e = if l == SOL_SOCKET && o == SO_ERROR { match sim().net_soerror(fd) { Ok(e) => e, Err(e) => { seterr(e); return -1; } } } else { 0 };
        *(v as *mut c_int) = e;
        return 0;
    }
    rawret!(SYS_getsockopt, fd, l, o, v, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if sfd(fd) { return ret!(sim().net_shutdown(fd, how).map(|_| 0), c_int); }
    rawret!(SYS_shutdown, fd, how) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, f: c_int) -> ssize_t {
    if sfd(fd) { return ret!(sim().net_recv(fd, core::slice::from_raw_parts_mut(b as *mut u8, n), f & MSG_PEEK != 0), ssize_t); }
    rawret!(SYS_recvfrom, fd, b, n, f, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, f: c_int) -> ssize_t {
    if sfd(fd) { return ret!(sim().net_send(fd, core::slice::from_raw_parts(b as *const u8, n)), ssize_t); }
    rawret!(SYS_sendto, fd, b, n, f, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(n: c_uint, f: c_int) -> c_int {
    if active() { return sim().net_fd(crate::net::Sock::Event(n as u64)); }
    rawret!(SYS_eventfd2, n, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(f: c_int) -> c_int {
    if active() { return sim().net_fd(crate::net::Sock::Epoll(Default::default())); }
    rawret!(SYS_epoll_create1, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if sfd(ep) {
        let e = if ev.is_null() { None } else { let e = core::ptr::read_unaligned(ev); Some((e.events, e.u64)) };
        return ret!(sim().ep_ctl(ep, op, fd, e).map(|_| 0), c_int);
    }
    rawret!(SYS_epoll_ctl, ep, op, fd, ev) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, out: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if sfd(ep) {
        return match sim().ep_wait(ep, max.max(1) as usize, timeout) {
            Ok(v) => { for (i, (e, d)) in v.iter().enumerate() { core::ptr::write_unaligned(out.add(i), epoll_event { events: *e, u64: *d }); } v.len() as c_int }
            Err(e) => { seterr(e); -1 }
        };
    }
    rawret!(SYS_epoll_wait, ep, out, max, timeout) as c_int
}
