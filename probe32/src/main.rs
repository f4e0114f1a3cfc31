//! The probe as a 32-bit program without the standard library: the three system calls it
//! needs are made directly.

#![no_std]
#![no_main]
extern crate alloc;
#[path = "../../probe/src/exec.rs"]
mod exec;
#[path = "../../probe/src/low.rs"]
mod low;
use alloc::{string::String, vec, vec::Vec};
use core::alloc::{GlobalAlloc, Layout};
use core::arch::global_asm;

global_asm!(
    ".globl _start",
    "_start:",
    "xor ebp, ebp",
    "and esp, -16",
    "call begin",
    "hlt",
    ".globl call3",
    "call3:",
    "push ebx",
    "mov eax, [esp+8]",
    "mov ebx, [esp+12]",
    "mov ecx, [esp+16]",
    "mov edx, [esp+20]",
    "int 0x80",
    "pop ebx",
    "ret",
);
extern "C" {
    fn call3(n: usize, a: usize, b: usize, c: usize) -> isize;
}
const EXIT: usize = 1;
const READ: usize = 3;
const WRITE: usize = 4;
const BRK: usize = 45;

/// Never gives memory back; `begin` forgets everything allocated for a line at once.
struct Bump;
static mut NEXT: usize = 0;
static mut END: usize = 0;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if NEXT == 0 {
            NEXT = call3(BRK, 0, 0, 0) as usize;
            END = NEXT;
        }
        let at = (NEXT + l.align() - 1) & !(l.align() - 1);
        let to = at + l.size();
        if to > END {
            let want = (to + 0xfffff) & !0xfffff;
            if call3(BRK, want, 0, 0) as usize != want {
                return core::ptr::null_mut();
            }
            END = want;
        }
        NEXT = to;
        at as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: Bump = Bump;

fn exit(code: usize) -> ! {
    unsafe { call3(EXIT, code, 0, 0) };
    loop {}
}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    exit(101)
}

fn write_all(mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { call3(WRITE, 1, b.as_ptr() as usize, b.len()) };
        if n <= 0 {
            exit(2);
        }
        b = &b[n as usize..];
    }
}

#[no_mangle]
extern "C" fn begin() -> ! {
    let c = exec::Ctx::new();
    let mut input: Vec<u8> = vec![0; 1 << 22];
    let (mut from, mut to) = (0, 0);
    loop {
        // one line
        let end = loop {
            if let Some(n) = input[from..to].iter().position(|x| *x == b'\n') {
                break from + n;
            }
            input.copy_within(from..to, 0);
            to -= from;
            from = 0;
            let n = unsafe { call3(READ, 0, input[to..].as_mut_ptr() as usize, input.len() - to) };
            if n < 0 {
                exit(2);
            }
            if n == 0 {
                exit(0);
            }
            to += n as usize;
        };
        let mark = unsafe { NEXT };
        {
            let line = core::str::from_utf8(&input[from..end]).unwrap();
            let mut w = line.split(' ');
            let op = w.next().unwrap();
            let a: Vec<Vec<u8>> = w.map(exec::unhex).collect();
            let mut r: String = exec::run(op, &a, &c);
            r.push('\n');
            write_all(r.as_bytes());
        }
        // nothing allocated for this line outlives it
        unsafe { NEXT = mark };
        from = end + 1;
    }
}
