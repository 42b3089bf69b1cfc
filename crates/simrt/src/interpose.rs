//! The libc entry points through which std and the code under test reach the operating system,
//! replaced for simulated threads (and passed through for everybody else).
use crate::raw::syscall6;
use crate::sched::{self, active, sim, stat};
use libc::{c_char, c_int, c_long, c_void, pthread_attr_t, pthread_t, size_t, ssize_t, timespec};

unsafe fn set_errno(e: i64) {
    *libc::__errno_location() = e as i32;
}
unsafe fn ret(r: i64) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r);
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    if active() && n == libc::SYS_futex {
        return ret(sched::futex(b as i32, a as usize, c as u32, d as *const timespec, f as u32));
    }
    ret(syscall6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if active() {
        stat(sched::S_GETRANDOM, 1);
        let p = buf as *mut u8;
        for i in 0..len {
            *p.add(i) = (*sim()).entropy.next() as u8;
        }
        return len as ssize_t;
    }
    // harness code: keys std keeps per thread (hash maps) may be drawn here and used by the code
    // under test later, so this answer has to repeat as well
    let _ = flags;
    std::ptr::write_bytes(buf as *mut u8, 0x5a, len);
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        sched::yield_now();
        return 0;
    }
    ret(syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        sched::sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(syscall6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let rel = if flags & libc::TIMER_ABSTIME != 0 { ns.saturating_sub(sched::now_ns(clk)) } else { ns };
        sched::sleep_ns(rel);
        return 0;
    }
    -(syscall6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: u32) -> c_int {
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if active() && clk != libc::CLOCK_PROCESS_CPUTIME_ID && clk != libc::CLOCK_THREAD_CPUTIME_ID {
        let ns = sched::clock_read(clk);
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(syscall6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}

unsafe fn sim_cpus() -> i64 {
    let s = sim();
    stat(sched::S_CPUQ, 1);
    (*s).cpu_queries += 1;
    if (*s).cpu_flip && (*s).cpu_queries % 2 == 0 {
        (*s).cpu_alt
    } else {
        (*s).cpus
    }
}

static mut LAST_CPU: i64 = 0;

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if active() {
        let n = sim_cpus();
        LAST_CPU = n;
        if n <= 0 {
            set_errno(libc::EPERM as i64);
            return -1;
        }
        std::ptr::write_bytes(set as *mut u8, 0, size);
        for i in 0..(n as usize).min(size * 8) {
            *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = ret(syscall6(libc::SYS_sched_getaffinity, pid as i64, size as i64, set as i64, 0, 0, 0));
    if r < 0 {
        -1
    } else {
        if (r as usize) < size {
            std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size - r as usize);
        }
        0
    }
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if active() && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return if LAST_CPU <= 0 { -1 } else { LAST_CPU };
    }
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = libc::dlsym(libc::RTLD_NEXT, b"sysconf\0".as_ptr() as *const c_char) as usize;
    }
    let f: unsafe extern "C" fn(c_int) -> c_long = std::mem::transmute(REAL);
    f(name)
}

unsafe fn hidden(path: *const c_char) -> bool {
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    p.starts_with(b"/proc/self/cgroup") || p.starts_with(b"/sys/fs/cgroup") || p.starts_with(b"/proc/self/mountinfo")
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if active() && hidden(path) {
        set_errno(libc::ENOENT as i64);
        return -1;
    }
    ret(syscall6(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}

pub(crate) type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
pub(crate) type CreateFn = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int;

pub(crate) unsafe fn real_create() -> CreateFn {
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const c_char) as usize;
    }
    std::mem::transmute(REAL)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut pthread_t, attr: *const pthread_attr_t, start: StartFn, arg: *mut c_void) -> c_int {
    if active() {
        return sched::create(real_create(), th, attr, start, arg);
    }
    real_create()(th, attr, start, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, rv: *mut *mut c_void) -> c_int {
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const c_char) as usize;
    }
    let f: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(REAL);
    if active() {
        sched::join(th);
    }
    f(th, rv)
}

/// referenced by harnesses so that the interposed symbols are linked in
pub fn anchor() -> usize {
    syscall as usize ^ getrandom as usize ^ pthread_create as usize
}

/// the page below a stack from `arena::stack` is its guard
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(attr: *const pthread_attr_t, n: *mut usize) -> c_int {
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = libc::dlsym(libc::RTLD_NEXT, b"pthread_attr_getguardsize\0".as_ptr() as *const c_char) as usize;
    }
    let f: unsafe extern "C" fn(*const pthread_attr_t, *mut usize) -> c_int = std::mem::transmute(REAL);
    let r = f(attr, n);
    if r == 0 && *n == 0 {
        *n = 4096;
    }
    r
}
