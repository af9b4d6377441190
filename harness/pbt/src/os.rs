//! The executable's own `syscall()`, which the dynamic linker prefers to libc's:
//! while a case runs, `getrandom` is answered from a generator seeded by the
//! case, which makes every case a pure function of its choices.

use libc::{c_long, c_void};

const SYS_GETRANDOM: c_long = 318;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_GETRANDOM {
        let buf = std::slice::from_raw_parts_mut(a as *mut u8, b as usize);
        if crate::engine::os_fill(buf) {
            return b;
        }
    }
    let ret: c_long;
    asm!("syscall"
         : "={rax}"(ret)
         : "{rax}"(n), "{rdi}"(a), "{rsi}"(b), "{rdx}"(c), "{r10}"(d), "{r8}"(e), "{r9}"(f)
         : "rcx", "r11", "memory"
         : "volatile");
    if ret < 0 && ret > -4096 {
        *libc::__errno_location() = (-ret) as i32;
        return -1;
    }
    ret
}

/// glibc's own `getrandom()`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    syscall(SYS_GETRANDOM, buf as c_long, len as c_long, flags as c_long, 0, 0, 0) as isize
}

/// Whether what is freed is kept, for the sake of a library which returns what it has freed.
#[thread_local]
pub static mut KEEP: bool = false;

extern "C" {
    fn __libc_free(p: *mut c_void);
}

#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    if !KEEP {
        __libc_free(p)
    }
}
