//! The little of an operating system that is needed: write, clock, exit, memory.
use core::alloc::{GlobalAlloc, Layout};
use core::arch::{asm, global_asm};
use core::cell::UnsafeCell;
use core::fmt;
use core::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

global_asm!(
    ".globl _start",
    "_start:",
    "mov eax, esp",
    "and esp, -16",
    "sub esp, 12",
    "push eax",
    "call {start}",
    "ud2",
    start = sym start,
);

extern "C" fn start(stack: *const usize) -> ! {
    let argc = unsafe { *stack };
    let mut args = Args { n: 0, a: [""; 32] };
    for i in 1..argc.min(32) {
        unsafe {
            let p = *stack.add(1 + i) as *const u8;
            let mut n = 0;
            while *p.add(n) != 0 {
                n += 1;
            }
            args.a[args.n] = core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n));
        }
        args.n += 1;
    }
    unsafe { HARD = args.get("--hard") };
    exit(crate::main(args))
}

static mut HARD: Option<&str> = None;
/// Whether violations of this kind are asked for.
pub fn judged(kind: &str) -> bool {
    match unsafe { HARD } {
        Some(h) => h.split(',').any(|k| k == kind),
        None => true,
    }
}

pub struct Args {
    n: usize,
    a: [&'static str; 32],
}
impl Args {
    pub fn get(&self, name: &str) -> Option<&'static str> {
        let i = self.a[..self.n].iter().position(|x| *x == name)?;
        self.a[..self.n].get(i + 1).copied()
    }
    pub fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name).and_then(|x| x.parse().ok()).unwrap_or(default)
    }
}

unsafe fn syscall3(n: u32, a: u32, b: u32, c: u32) -> i32 {
    let r;
    // ebx is reserved
    asm!("xchg ebx, {a}", "int 0x80", "xchg ebx, {a}", a = inout(reg) a => _, inout("eax") n => r, in("ecx") b, in("edx") c);
    r
}

pub fn exit(code: u32) -> ! {
    unsafe { syscall3(252, code, 0, 0) };
    loop {}
}

/// Milliseconds of the monotonic clock.
pub fn now() -> u64 {
    let mut t = [0i32; 2];
    unsafe { syscall3(265, 1, t.as_mut_ptr() as u32, 0) };
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}

pub struct Out;
impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let n = unsafe { syscall3(4, 1, b.as_ptr() as u32, b.len() as u32) };
            if n <= 0 {
                return Err(fmt::Error);
            }
            b = &b[n as usize..];
        }
        Ok(())
    }
}

#[macro_export]
macro_rules! outln {
    ($($a:tt)*) => {{ use core::fmt::Write; let _ = writeln!($crate::sys::Out, $($a)*); }};
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    crate::fail("panic", format_args!("an operation panicked: {}", i.message()))
}

const HEAP: usize = 64 << 20;
#[repr(align(64))]
struct Heap(UnsafeCell<[u8; HEAP]>);
unsafe impl Sync for Heap {}
static MEM: Heap = Heap(UnsafeCell::new([0; HEAP]));
static AT: AtomicUsize = AtomicUsize::new(0);
/// Allocations since the start, and those not freed yet.
pub static ALLOCS: AtomicU32 = AtomicU32::new(0);
pub static LIVE: AtomicU32 = AtomicU32::new(0);

/// Gives memory out and takes it back only when it is the last piece.
struct Bump;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        LIVE.fetch_add(1, Relaxed);
        let at = (AT.load(Relaxed) + l.align() - 1) & !(l.align() - 1);
        if l.align() > 64 || at + l.size() > HEAP {
            crate::fail("panic", format_args!("out of memory"));
        }
        AT.store(at + l.size(), Relaxed);
        (MEM.0.get() as *mut u8).add(at)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        let at = p as usize - MEM.0.get() as usize;
        if at + l.size() == AT.load(Relaxed) {
            AT.store(at, Relaxed);
        }
    }
}
#[global_allocator]
static A: Bump = Bump;
