//! Sealed calls: while a call of the implementation is sealed, every system call of its thread
//! is trapped (Linux syscall user dispatch) and denied, and reads of the environment and of the
//! clock (also of the processor's time stamp counter) are noticed. Memory management and uncontended locking are let through.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

/// set by the check that uses sealed calls
pub static ON: AtomicBool = AtomicBool::new(false);

thread_local! {
    static SEL: UnsafeCell<u8> = const { UnsafeCell::new(0) };
    static HIT: Cell<i64> = const { Cell::new(NONE) };
    static LET: Cell<u64> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}
const NONE: i64 = -1;
pub const ENVIRONMENT: i64 = -2;
pub const CLOCK: i64 = -3;
/// exit status of the process if the implementation tried to end it
pub const ENDED: i32 = 97;

// syscalls in this piece of code are never trapped: the return from the handler, and the calls
// that the handler makes on behalf of the trapped code
core::arch::global_asm!(
    ".globl verif_sud_lo",
    ".globl verif_sud_hi",
    "verif_sud_lo:",
    "verif_sud_restore:",
    "mov eax, 15",
    "syscall",
    "verif_sud_call:", // (nr, args: *const u64)
    "mov rax, rdi",
    "mov r11, rsi",
    "mov rdi, [r11]",
    "mov rsi, [r11 + 8]",
    "mov rdx, [r11 + 16]",
    "mov r10, [r11 + 24]",
    "mov r8, [r11 + 32]",
    "mov r9, [r11 + 40]",
    "syscall",
    "ret",
    "verif_sud_hi:",
    "ret",
);
extern "C" {
    fn verif_sud_lo();
    fn verif_sud_hi();
    fn verif_sud_restore();
    fn verif_sud_call(nr: i64, args: *const u64) -> i64;
}

pub fn raw(nr: i64, a: [u64; 6]) -> i64 {
    unsafe { verif_sud_call(nr, a.as_ptr()) }
}

#[repr(C)]
struct KAct {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}

// offsets of the general registers in ucontext_t: 40 bytes of header, then r8 r9 r10 r11 r12 r13
// r14 r15 rdi rsi rbp rbx rdx rax rcx rsp rip
const R8: usize = 0;
const R9: usize = 1;
const R10: usize = 2;
const RDI: usize = 8;
const RSI: usize = 9;
const RDX: usize = 12;
const RAX: usize = 13;
const RIP: usize = 16;

/// brk mmap munmap mremap mprotect madvise futex sched_yield
fn harmless(nr: i64) -> bool {
    matches!(nr, 12 | 9 | 11 | 25 | 10 | 28 | 202 | 24)
}

extern "C" fn on_sigsys(_: i32, _: *const u8, ctx: *mut u8) {
    unsafe {
        let g = ctx.add(40) as *mut i64;
        let nr = *g.add(RAX);
        if harmless(nr) {
            LET.with(|l| l.set(l.get() + 1));
            let a = [RDI, RSI, RDX, R10, R8, R9].map(|r| *g.add(r) as u64);
            *g.add(RAX) = raw(nr, a);
            return;
        }
        HIT.with(|h| {
            if h.get() == NONE {
                h.set(nr)
            }
        });
        // exit, exit_group, kill, tkill, tgkill
        if matches!(nr, 60 | 231 | 62 | 200 | 234) {
            let m = b"the implementation tried to end the process\n";
            raw(1, [2, m.as_ptr() as u64, m.len() as u64, 0, 0, 0]);
            raw(231, [ENDED as u64, 0, 0, 0, 0, 0]);
        }
        *g.add(RAX) = -1; // EPERM
    }
}

/// page that stands for the environment block; unreadable until somebody looks at it
static GUARD: AtomicU64 = AtomicU64::new(0);
/// whether the time stamp counter could be made to trap
pub static TSC: AtomicBool = AtomicBool::new(false);

extern "C" fn on_sigsegv(_: i32, info: *const u8, ctx: *mut u8) {
    unsafe {
        let g = ctx.add(40) as *mut i64;
        let addr = *(info.add(16) as *const u64);
        let page = GUARD.load(Relaxed);
        if page != 0 && addr & !4095 == page {
            notice(ENVIRONMENT);
            raw(10, [page, 4096, 1, 0, 0, 0]);
            return;
        }
        // a general protection fault carries no address: rdtsc, rdtscp
        let ip = *g.add(RIP) as *const u8;
        let len = match (addr == 0).then(|| (*ip, *ip.add(1))) {
            Some((0x0f, 0x31)) => 2,
            Some((0x0f, 0x01)) if *ip.add(2) == 0xf9 => 3,
            _ => 0,
        };
        if len == 0 || !TSC.load(Relaxed) {
            // a genuine fault: back to the default action, the instruction faults again
            let act = KAct { handler: 0, flags: 0x0400_0000, restorer: verif_sud_restore as *const () as usize, mask: 0 };
            raw(13, [11, &act as *const KAct as u64, 0, 8, 0, 0]);
            return;
        }
        notice(CLOCK);
        *g.add(RAX) = 0;
        *g.add(RDX) = 0;
        *g.add(RIP) += len;
    }
}

/// before any sealed call: an unreadable page takes the place of the environment block
pub fn hide_environment(environ: *mut *const *const u8) {
    let p = raw(9, [0, 4096, 0, 0x22, u64::MAX, 0]);
    assert!(p > 0, "mmap failed: {}", p);
    GUARD.store(p as u64, Relaxed);
    let act = KAct { handler: on_sigsegv as *const () as usize, flags: 4 | 0x0800_0000 | 0x0400_0000, restorer: verif_sud_restore as *const () as usize, mask: 0 };
    let r = raw(13, [11, &act as *const KAct as u64, 0, 8, 0, 0]);
    assert!(r == 0, "rt_sigaction failed: {}", r);
    unsafe { *environ = p as *const *const u8 };
}

fn arm() {
    if ARMED.with(|a| a.replace(true)) {
        return;
    }
    // where the processor or the machine does not offer it, the counter stays unobserved
    if GUARD.load(Relaxed) != 0 && raw(157, [26, 2, 0, 0, 0, 0]) == 0 {
        TSC.store(true, Relaxed);
    }
    let (lo, hi) = (verif_sud_lo as *const () as u64, verif_sud_hi as *const () as u64);
    let act = KAct { handler: on_sigsys as *const () as usize, flags: 4 | 0x0400_0000, restorer: verif_sud_restore as *const () as usize, mask: 0 };
    let r = raw(13, [31, &act as *const KAct as u64, 0, 8, 0, 0]);
    assert!(r == 0, "rt_sigaction failed: {}", r);
    let r = raw(157, [59, 1, lo, hi - lo, SEL.with(|s| s.get() as u64), 0]);
    assert!(r == 0, "syscall user dispatch is not available: {}", r);
}

fn set(v: u8) -> u8 {
    SEL.with(|s| unsafe {
        let old = *s.get();
        std::ptr::write_volatile(s.get(), v);
        old
    })
}

pub fn sealed() -> bool {
    SEL.with(|s| unsafe { std::ptr::read_volatile(s.get()) != 0 })
}

/// harness code (the allocator) inside a sealed call
pub fn open<T>(f: impl FnOnce() -> T) -> T {
    let old = set(0);
    let r = f();
    set(old);
    r
}

pub fn notice(what: i64) {
    if sealed() {
        HIT.with(|h| {
            if h.get() == NONE {
                h.set(what)
            }
        });
    }
}

pub fn seal<T>(f: impl FnOnce() -> T) -> T {
    if !ON.load(Relaxed) {
        return f();
    }
    arm();
    HIT.with(|h| h.set(NONE));
    set(1);
    let r = f();
    // what was printed without a line end becomes visible here
    let _ = std::io::Write::flush(&mut std::io::stdout());
    set(0);
    r
}

/// what the last sealed call on this thread tried to do
pub fn hit() -> Option<String> {
    match HIT.with(|h| h.replace(NONE)) {
        NONE => None,
        ENVIRONMENT => {
            raw(10, [GUARD.load(Relaxed), 4096, 0, 0, 0, 0]);
            Some("reads the environment".into())
        }
        CLOCK => Some("reads the clock".into()),
        n => Some(format!("makes system call {} ({})", n, name(n))),
    }
}

fn name(n: i64) -> &'static str {
    match n {
        0 => "read",
        1 => "write",
        2 => "open",
        3 => "close",
        20 => "writev",
        41 => "socket",
        56 | 435 => "clone",
        57 => "fork",
        58 => "vfork",
        59 => "execve",
        35 | 230 => "sleep",
        83 => "mkdir",
        87 => "unlink",
        257 => "openat",
        318 => "getrandom",
        _ => "not memory management",
    }
}
