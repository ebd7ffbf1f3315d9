//! Native replay driver.  Reads lines `op initial-out-hex in0-hex in1-hex ...`
//! (`-` is the empty string) and answers `R <ret> <out-hex>` or `PANIC`.
use std::io::{self, BufRead, Write};
use std::panic;

fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

#[no_mangle]
pub extern "C" fn vstub_absorb(state: u64, byte: u8) -> u64 {
    mix(state ^ mix(u64::from(byte).wrapping_add(0x1001))).wrapping_add(1)
}

#[no_mangle]
pub extern "C" fn vstub_digest(state: u64, index: u8) -> u8 {
    (mix(state ^ mix(u64::from(index).wrapping_add(0x2002))) >> 5) as u8
}

#[no_mangle]
pub extern "C" fn vstub_permute(key: u64, hi: u64, lo: u64, index: u8) -> u8 {
    (mix(key ^ mix(hi ^ mix(lo ^ mix(u64::from(index).wrapping_add(0x3003))))) >> 7) as u8
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// A huge buffer: `@len:hex` is a read-only mapping (address space only, MAP_NORESERVE) of that length;
/// beyond what can be mapped only the first pages exist.  Writing to it faults.
fn huge(s: &str) -> (*mut u8, usize) {
    let (n, _) = s[1..].split_once(':').unwrap();
    let n: usize = n.parse().unwrap();
    let m = n.min(1 << 38);
    let p = unsafe { mmap(std::ptr::null_mut(), m, 1, 0x4022, -1, 0) };
    assert!(p as isize != -1);
    (p, n)
}

enum Buf {
    Vec(Vec<u8>),
    Huge(*mut u8, usize),
}

impl Buf {
    fn new(s: &str) -> Buf {
        if s.starts_with('@') {
            let (p, n) = huge(s);
            Buf::Huge(p, n)
        } else {
            Buf::Vec(unhex(s))
        }
    }
    fn get(&self) -> &[u8] {
        match self {
            Buf::Vec(v) => v,
            Buf::Huge(p, n) => unsafe { std::slice::from_raw_parts(*p, *n) },
        }
    }
    fn ptr(&mut self) -> (*mut u8, usize) {
        match self {
            Buf::Vec(v) => (v.as_mut_ptr(), v.len()),
            Buf::Huge(p, n) => (*p, *n),
        }
    }
    fn hex(&self) -> String {
        match self {
            Buf::Vec(v) => v.iter().map(|b| format!("{:02x}", b)).collect(),
            Buf::Huge(..) => String::new(),
        }
    }
}

type Op = unsafe extern "C-unwind" fn(*const &[u8], usize, *mut u8, usize) -> u32;

include!(concat!(env!("VH_TABLE")));

/// A C library whose comparison stops at the first difference, as the language allows (memory traces of
/// the tuned versions hide that from some lengths).
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
        if x != y {
            return i32::from(x) - i32::from(y);
        }
        i += 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

/// Written before and after every operation, so that a memory trace shows where it lies.
static mut MARK: [u64; 2] = [0; 2];

fn mark(i: usize) {
    unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(MARK[i]), 1) }
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin();
    let stdout = io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() {
            Some(n) => n,
            None => continue,
        };
        if name == "mark" {
            println!("R {} -", std::ptr::addr_of!(MARK) as usize);
            continue;
        }
        let op = match TABLE.iter().find(|(n, _)| *n == name) {
            Some(x) => x.1,
            None => {
                println!("NOOP");
                continue;
            }
        };
        let mut out = Buf::new(it.next().unwrap());
        let ins: Vec<Buf> = it.map(Buf::new).collect();
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
            let refs: Vec<&[u8]> = ins.iter().map(|v| v.get()).collect();
            let (p, n) = out.ptr();
            mark(0);
            let r = unsafe { op(refs.as_ptr(), refs.len(), p, n) };
            mark(1);
            r
        }));
        let mut so = stdout.lock();
        match r {
            Ok(v) => {
                let h = out.hex();
                writeln!(so, "R {} {}", v, if h.is_empty() { "-" } else { &h }).unwrap();
            }
            Err(_) => {
                let h = out.hex();
                writeln!(so, "PANIC {}", if h.is_empty() { "-" } else { &h }).unwrap();
            }
        }
        so.flush().unwrap();
    }
}
