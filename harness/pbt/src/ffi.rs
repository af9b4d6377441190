//! The C library as a C program sees it: loaded at run time, called with plain
//! pointers and lengths, which here point to read-only memory between pages
//! that can't be accessed.

use libc::{c_void, mmap, mprotect, munmap};
use std::ffi::CString;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Buf {
    pub len: u64,
    pub ptr: *const u8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Params,
    Keypair,
    Issuer,
    IssuerParams,
    Phone,
    Seed,
    Issuance,
    User,
    Entry,
    Presentation,
    Verified,
    Nothing,
}
use self::Kind::*;

pub struct Function {
    pub name: &'static str,
    pub args: &'static [Kind],
    pub result: Kind,
    /// The length of its result, as the header declares it.
    pub len: usize,
}

pub static FUNCTIONS: [Function; 12] = [
    Function { name: "system_parameters_create", args: &[Seed], result: Params, len: 64 },
    Function { name: "issuer_create", args: &[Params, Seed], result: Keypair, len: 96 },
    Function { name: "issuer_new", args: &[Params, Keypair], result: Issuer, len: 160 },
    Function { name: "issuer_get_issuer_parameters", args: &[Issuer], result: IssuerParams, len: 32 },
    Function { name: "issuer_issue", args: &[Issuer, Phone, Seed], result: Issuance, len: 328 },
    Function { name: "issuer_verify", args: &[Issuer, Presentation], result: Verified, len: 448 },
    Function { name: "issuer_verify_roster_membership", args: &[Issuer, Verified], result: Nothing, len: 32 },
    Function { name: "user_obtain_finish", args: &[Phone, Params, IssuerParams, Issuance], result: User, len: 288 },
    Function { name: "user_show", args: &[User, Entry, Seed], result: Presentation, len: 448 },
    Function { name: "roster_entry_commitment_create", args: &[Phone, Params, Seed], result: Entry, len: 64 },
    Function { name: "roster_entry_commitment_remove_opening", args: &[Entry], result: Nothing, len: 32 },
    Function { name: "roster_entry_commitment_open", args: &[Entry, Phone, Params], result: Nothing, len: 0 },
];

#[derive(Clone)]
pub struct Lib {
    fns: [usize; 12],
}

impl Lib {
    pub fn load(build: &str) -> Lib {
        let dir = std::env::var("PBT_FFI").unwrap_or_else(|_| "/verif/target".to_string());
        Lib::open(format!("{}/{}/release/libcredential.so", dir, build), None)
    }

    /// The one which was released, without the function that was added later.
    pub fn released() -> Lib {
        Lib::open(concat!(env!("CARGO_MANIFEST_DIR"), "/../released/libcredential.so").to_string(), Some(10))
    }

    fn open(path: String, lacks: Option<usize>) -> Lib {
        let c = CString::new(path.clone()).unwrap();
        let h = unsafe { libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL) };
        if h.is_null() {
            crate::common::internal(&format!("{} can't be loaded", path));
        }
        let mut fns = [0; 12];
        for (i, f) in FUNCTIONS.iter().enumerate() {
            let c = CString::new(f.name).unwrap();
            fns[i] = unsafe { libc::dlsym(h, c.as_ptr()) } as usize;
            if fns[i] == 0 && lacks != Some(i) {
                crate::common::internal(&format!("{} has no {}", path, f.name));
            }
        }
        Lib { fns }
    }

    /// Call with words, which are pointers and lengths.
    fn raw(&self, f: usize, a: &[u64]) -> Buf {
        type W = u64;
        unsafe {
            let p = self.fns[f] as *const ();
            use std::mem::transmute as t;
            match a.len() {
                1 => t::<_, extern "C" fn(W) -> Buf>(p)(a[0]),
                2 => t::<_, extern "C" fn(W, W) -> Buf>(p)(a[0], a[1]),
                3 => t::<_, extern "C" fn(W, W, W) -> Buf>(p)(a[0], a[1], a[2]),
                4 => t::<_, extern "C" fn(W, W, W, W) -> Buf>(p)(a[0], a[1], a[2], a[3]),
                5 => t::<_, extern "C" fn(W, W, W, W, W) -> Buf>(p)(a[0], a[1], a[2], a[3], a[4]),
                6 => t::<_, extern "C" fn(W, W, W, W, W, W) -> Buf>(p)(a[0], a[1], a[2], a[3], a[4], a[5]),
                8 => t::<_, extern "C" fn(W, W, W, W, W, W, W, W) -> Buf>(p)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]),
                _ => crate::common::internal("number of arguments"),
            }
        }
    }

    /// What it returns, copied, if that isn't used before it is freed.
    pub fn call_released(&self, f: usize, args: &[&[u8]]) -> (u64, Vec<u8>) {
        let mut words = Vec::new();
        for (k, a) in FUNCTIONS[f].args.iter().zip(args) {
            words.push(a.as_ptr() as u64);
            if *k != Seed {
                words.push(a.len() as u64);
            }
        }
        unsafe { crate::os::KEEP = true };
        let b = self.raw(f, &words);
        unsafe { crate::os::KEEP = false };
        (b.len, if b.len < 2 { vec![] } else { take(&b) })
    }

    pub fn call(&self, arena: &mut Arena, f: usize, args: &[Arg]) -> Buf {
        let mut words = Vec::new();
        for (i, (k, a)) in FUNCTIONS[f].args.iter().zip(args).enumerate() {
            words.push(arena.put(i, a) as u64);
            if *k != Seed {
                words.push(a.bytes.len() as u64);
            }
        }
        let b = self.raw(f, &words);
        arena.check(args);
        b
    }
}

impl Lib {
    /// One argument is followed by so many zero bytes, all of which are part of it.
    pub fn call_long(&self, arena: &mut Arena, f: usize, args: &[Arg], which: usize, more: usize) -> Buf {
        let n = args[which].bytes.len();
        let len = (n + more + PAGE - 1) / PAGE * PAGE;
        // Only one process at a time has as much, in case somebody copies it.
        let dir = std::env::var("PBT_FFI").unwrap_or_else(|_| "/verif/target".to_string());
        let lock = match std::fs::OpenOptions::new().create(true).write(true).open(format!("{}/long.lock", dir)) {
            Ok(l) => l,
            Err(_) => crate::common::internal("lock"),
        };
        use std::os::unix::io::AsRawFd;
        unsafe { libc::flock(lock.as_raw_fd(), libc::LOCK_EX) };
        let p = unsafe {
            mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        if p == libc::MAP_FAILED {
            crate::common::internal("mmap");
        }
        let mut words = Vec::new();
        for (i, (k, a)) in FUNCTIONS[f].args.iter().zip(args).enumerate() {
            if i == which {
                unsafe { std::ptr::copy_nonoverlapping(a.bytes.as_ptr(), p as *mut u8, n) };
                words.push(p as u64);
                words.push((n + more) as u64);
                continue;
            }
            words.push(arena.put(i, a) as u64);
            if *k != Seed {
                words.push(a.bytes.len() as u64);
            }
        }
        let b = self.raw(f, &words);
        unsafe { munmap(p, len) };
        b
    }
}

/// An argument: some bytes, or NULL with a length.
#[derive(Clone, Debug)]
pub struct Arg {
    pub bytes: Vec<u8>,
    pub null: bool,
    /// Whether it is followed by inaccessible memory, or preceded by it.
    pub at_end: bool,
}

impl Arg {
    pub fn of(b: &[u8]) -> Arg {
        Arg { bytes: b.to_vec(), null: false, at_end: true }
    }
    pub fn slice(&self) -> Option<&[u8]> {
        if self.null || self.bytes.is_empty() { None } else { Some(&self.bytes) }
    }
}

const PAGE: usize = 4096;
const DATA: usize = 2 * PAGE;
const SLOT: usize = DATA + PAGE;
const SLOTS: usize = 4;
pub const MAX_ARG: usize = DATA;

/// Places for arguments between inaccessible pages.
pub struct Arena {
    base: *mut u8,
    at: [usize; SLOTS],
}

impl Arena {
    pub fn new() -> Arena {
        unsafe {
            let base = mmap(
                std::ptr::null_mut(),
                PAGE + SLOT * SLOTS,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            if base == libc::MAP_FAILED {
                crate::common::internal("mmap");
            }
            Arena { base: base as *mut u8, at: [0; SLOTS] }
        }
    }

    fn put(&mut self, slot: usize, a: &Arg) -> *const u8 {
        if a.null {
            return std::ptr::null();
        }
        let n = a.bytes.len();
        assert!(n <= DATA);
        unsafe {
            let page = self.base.add(PAGE + SLOT * slot);
            mprotect(page as *mut c_void, DATA, libc::PROT_READ | libc::PROT_WRITE);
            std::ptr::write_bytes(page, 0xa5, DATA);
            let offset = if a.at_end { DATA - n } else { 0 };
            let p = page.add(offset);
            std::ptr::copy_nonoverlapping(a.bytes.as_ptr(), p, n);
            mprotect(page as *mut c_void, DATA, libc::PROT_READ);
            self.at[slot] = p as usize;
            p
        }
    }

    /// The arguments can't have been written to, but they might have been made writable.
    fn check(&self, args: &[Arg]) {
        for (i, a) in args.iter().enumerate() {
            if !a.null {
                let now = unsafe { std::slice::from_raw_parts(self.at[i] as *const u8, a.bytes.len()) };
                if now != &a.bytes[..] {
                    // As fatal as writing to them would have been
                    unsafe { libc::abort() }
                }
            }
        }
    }

    /// Whether a pointer points to an argument.
    pub fn contains(&self, p: *const u8) -> bool {
        (p as usize) >= self.base as usize && (p as usize) < self.base as usize + PAGE + SLOT * SLOTS
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base as *mut c_void, PAGE + SLOT * SLOTS);
        }
    }
}

/// What a call returned, copied.
pub fn take(b: &Buf) -> Vec<u8> {
    if b.ptr.is_null() {
        return Vec::new();
    }
    unsafe { std::slice::from_raw_parts(b.ptr, b.len as usize).to_vec() }
}

pub fn release(b: &Buf) {
    unsafe { libc::free(b.ptr as *mut c_void) }
}

extern "C" {
    pub fn malloc_usable_size(p: *const c_void) -> usize;
    pub fn mallopt(what: i32, value: i32) -> i32;
}
pub const M_PERTURB: i32 = -6;
