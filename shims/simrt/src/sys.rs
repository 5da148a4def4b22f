//! Interposed clock and random source. On a thread that entered the
//! deterministic mode they answer from the world; elsewhere they go to the
//! kernel.
use super::*;
use libc::{c_int, c_long, c_uint, c_void, clockid_t, size_t, ssize_t, timespec};



unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}
unsafe fn fill(buf: *mut c_void, len: size_t) {
    let mut s = RNG.with(|c| c.get());
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for b in out.iter_mut() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        *b = (s >> 24) as u8;
    }
    RNG.with(|c| c.set(s));
}
fn virt() -> bool {
    VCLOCK_ON.try_with(|c| c.get()).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if virt() {
        let t = VCLOCK.with(|c| c.get());
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        return 0;
    }
    raw(libc::SYS_clock_gettime, [clk as c_long, ts as c_long, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if virt() {
        fill(buf, len);
        return len as ssize_t;
    }
    raw(libc::SYS_getrandom, [buf as c_long, len as c_long, flags as c_long, 0, 0, 0]) as ssize_t
}

/// Some crates make the getrandom system call themselves.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && virt() {
        if b > 0 {
            fill(a as *mut c_void, b as size_t);
        }
        return b;
    }
    // Waiting for a lock: if no other thread lets it go soon, its holder is held back on this one.
    if n == libc::SYS_futex && matches!(b & 0x7f, 0 | 9) && fiber::running() {
        for _ in 0..20 {
            if std::sync::atomic::AtomicU32::from_ptr(a as *mut u32).load(Ordering::SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            libc::usleep(10);
        }
        fiber::give_way(a as usize);
        *libc::__errno_location() = libc::EAGAIN;
        return -1;
    }
    raw(n, [a, b, c, d, e, f])
}
