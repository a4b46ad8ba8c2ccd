//! C10: interleavings of two operations inside the library. The instrumented library reports
//! every memory access; accesses to memory that is neither the thread's own stack, its own heap
//! blocks nor constant are the points at which another thread can matter. Each schedule runs in
//! a forked process, so that all start from the same state.
use ntrust_ct_ops::{self as ops, Io, Script};
use ntrust_mc::explore::{hash64, hex};
use ntrust_mc::model::ntru::*;
use ntrust_mc::spaces::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

#[cfg(feature = "v677")]
const PAR: Par = HPS2048677;
#[cfg(feature = "v821")]
const PAR: Par = HPS4096821;
#[cfg(feature = "v701")]
const PAR: Par = HRSS701;
#[cfg(not(any(feature = "v677", feature = "v821", feature = "v701")))]
const PAR: Par = HPS2048509;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn gettid() -> i32;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, attr: *mut u64) -> i32;
    fn pthread_attr_getstack(attr: *const u64, addr: *mut usize, size: *mut usize) -> i32;
}

// ---- the two threads of a schedule ----------------------------------------------------------
const NEVER: u64 = u64::MAX;
const ARENA: usize = 48 << 20;
#[repr(align(4096))]
struct Arenas(std::cell::UnsafeCell<[[u8; ARENA]; 2]>);
unsafe impl Sync for Arenas {}
static HEAP: Arenas = Arenas(std::cell::UnsafeCell::new([[0; ARENA]; 2]));
static mut CONSTANT: Vec<(usize, usize)> = Vec::new();

struct Side {
    tid: AtomicUsize,
    lo: AtomicUsize,
    hi: AtomicUsize,
    top: AtomicUsize,
    shared: AtomicU64,
    edges: AtomicU64,
    events: AtomicU64,
    stop_shared: AtomicU64,
    stop_edge: AtomicU64,
    stopped: AtomicBool,
    done: AtomicBool,
}
#[allow(clippy::declare_interior_mutable_const)]
const SIDE: Side = Side {
    tid: AtomicUsize::new(0),
    lo: AtomicUsize::new(0),
    hi: AtomicUsize::new(0),
    top: AtomicUsize::new(0),
    shared: AtomicU64::new(0),
    edges: AtomicU64::new(0),
    events: AtomicU64::new(0),
    stop_shared: AtomicU64::new(NEVER),
    stop_edge: AtomicU64::new(NEVER),
    stopped: AtomicBool::new(false),
    done: AtomicBool::new(false),
};
static SIDES: [Side; 2] = [SIDE; 2];
static TURN: AtomicUsize = AtomicUsize::new(0);
static BLOCKED: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(9) };
}

fn sleeps(o: &Side) -> bool {
    let p = format!("/proc/self/task/{}/stat", o.tid.load(Acquire));
    let st = std::fs::read_to_string(p).unwrap_or_default();
    st.rsplit(')').next().map_or(false, |x| x.trim_start().starts_with('S'))
}

fn wait(me: usize) {
    let other = &SIDES[1 - me];
    let mut seen = other.events.load(Acquire);
    let mut since = Instant::now();
    let mut spins = 0u32;
    while TURN.load(Acquire) != me && !other.done.load(Acquire) {
        spins += 1;
        if spins < 200 {
            std::hint::spin_loop();
            continue;
        }
        std::thread::sleep(Duration::from_micros(20));
        let e = other.events.load(Acquire);
        if e != seen {
            seen = e;
            since = Instant::now();
        } else if since.elapsed() > Duration::from_millis(500) || since.elapsed() > Duration::from_millis(5) && sleeps(other) {
            // the other thread waits for something this one holds: the schedule is not possible
            BLOCKED.store(true, Release);
            break;
        }
    }
    TURN.store(me, Release);
}

#[cold]
fn hand_over(me: usize) {
    let s = &SIDES[me];
    s.stopped.store(true, Release);
    s.stop_shared.store(NEVER, Relaxed);
    s.stop_edge.store(NEVER, Relaxed);
    let m = ME.with(|m| m.replace(9));
    TURN.store(1 - me, Release);
    wait(me);
    ME.with(|x| x.set(m));
}

#[inline(always)]
fn access(a: usize) {
    let me = ME.with(|m| m.get());
    if me > 1 {
        return;
    }
    let s = &SIDES[me];
    if a.wrapping_sub(s.lo.load(Relaxed)) < s.hi.load(Relaxed) {
        return;
    }
    other_access(me, a)
}

#[inline(never)]
fn other_access(me: usize, a: usize) {
    let s = &SIDES[me];
    let arena = HEAP.0.get() as usize + me * ARENA;
    if a.wrapping_sub(arena) < ARENA {
        return;
    }
    let c = unsafe { &*std::ptr::addr_of!(CONSTANT) };
    if c.iter().any(|&(lo, hi)| a >= lo && a < hi) {
        return;
    }
    let n = s.shared.fetch_add(1, Relaxed);
    s.events.fetch_add(1, Release);
    if n == s.stop_shared.load(Relaxed) {
        hand_over(me);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    let me = ME.with(|m| m.get());
    if me > 1 {
        return;
    }
    let s = &SIDES[me];
    // only this thread writes them
    let n = s.edges.load(Relaxed);
    s.edges.store(n + 1, Relaxed);
    s.events.store(s.events.load(Relaxed) + 1, Release);
    if n == s.stop_edge.load(Relaxed) {
        hand_over(me);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}
#[no_mangle]
pub static mut __memprof_shadow_memory_dynamic_address: usize = 0;
#[no_mangle]
pub unsafe extern "C" fn __memprof_load(a: usize) {
    access(a)
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_store(a: usize) {
    access(a)
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize);
    access(d as usize);
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize);
    access(d as usize);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    access(d as usize);
    std::ptr::write_bytes(d, c as u8, n);
    d
}

// heap blocks of an operation come from its thread's arena
struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let me = ME.try_with(|m| m.get()).unwrap_or(9);
        if me < 2 {
            let t = &SIDES[me].top;
            let a = (t.load(Relaxed) + l.align() - 1) & !(l.align() - 1);
            if a + l.size() <= ARENA && l.align() <= 4096 {
                t.store(a + l.size(), Relaxed);
                return (HEAP.0.get() as *mut u8).add(me * ARENA + a);
            }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if (p as usize).wrapping_sub(HEAP.0.get() as usize) >= 2 * ARENA {
            std::alloc::System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Alloc = Alloc;

// ---- operations -----------------------------------------------------------------------------
struct Op {
    name: &'static str,
    kind: u8,
    pk: Vec<u8>,
    sk: Vec<u8>,
    ct: Vec<u8>,
    script: Vec<u8>,
}

fn perform(o: &Op, side: usize) -> u64 {
    let mut io = Io { pk: [0; ops::PK], sk: [0; ops::SK], ct: [0; ops::CT], k: [0; ops::SS], rng: Script { buf: [0; 8192], pos: 0 } };
    for (d, s) in [(&mut io.pk[..], &o.pk), (&mut io.sk[..], &o.sk), (&mut io.ct[..], &o.ct), (&mut io.rng.buf[..], &o.script)] {
        d[..s.len()].copy_from_slice(s);
    }
    ME.with(|m| m.set(side));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match o.kind {
        0 => ops::keypair(&mut io),
        1 => ops::enc(&mut io),
        2 => ops::dec(&mut io),
        3 => ops::bundled(&mut io),
        4 => ops::generator(&mut io),
        5 => ops::failing_keypair(&mut io, 0),
        6 => ops::failing_keypair(&mut io, 1),
        _ => ops::failing_enc(&mut io),
    }));
    ME.with(|m| m.set(9));
    let end = match r {
        Ok(b) => b as u8,
        Err(_) => 2,
    };
    hash64(&[&[end], &io.pk, &io.sk, &io.ct, &io.k])
}

fn own_stack() -> (usize, usize) {
    let mut attr = [0u64; 16];
    let (mut a, mut n) = (0usize, 0usize);
    unsafe {
        pthread_getattr_np(pthread_self(), attr.as_mut_ptr());
        pthread_attr_getstack(attr.as_ptr(), &mut a, &mut n);
    }
    (a, n)
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Sched {
    warm: bool,
    a: usize,
    b: Option<usize>,
    stop: [u64; 4], // thread 1: shared access, edge; thread 2: shared access, edge
}

/// digests, shared accesses, edges, flags
type Res = [u64; 7];

fn side(me: usize, o: &Op) -> u64 {
    let (lo, n) = own_stack();
    SIDES[me].tid.store(unsafe { gettid() } as usize, Release);
    SIDES[me].lo.store(lo, Release);
    SIDES[me].hi.store(n, Release);
    wait_start(me);
    let d = perform(o, me);
    SIDES[me].done.store(true, Release);
    TURN.store(1 - me, Release);
    d
}
fn wait_start(me: usize) {
    if me == 1 {
        wait(1);
    }
}

/// in the forked process
fn child(ops: &[Op], s: Sched) -> Res {
    if s.warm {
        for i in [Some(s.a), s.b] {
            if let Some(i) = i {
                perform(&ops[i], 9);
            }
        }
    }
    SIDES[0].stop_shared.store(s.stop[0], Relaxed);
    SIDES[0].stop_edge.store(s.stop[1], Relaxed);
    SIDES[1].stop_shared.store(s.stop[2], Relaxed);
    SIDES[1].stop_edge.store(s.stop[3], Relaxed);
    let (mut da, mut db) = (0, 0);
    if s.b.is_none() {
        SIDES[1].done.store(true, Release);
    }
    std::thread::scope(|t| {
        let a = t.spawn(|| side(0, &ops[s.a]));
        let b = s.b.map(|b| t.spawn(move || side(1, &ops[b])));
        let t0 = Instant::now();
        while !SIDES.iter().all(|x| x.done.load(Acquire)) {
            if t0.elapsed() > Duration::from_secs(60) {
                unsafe { _exit(9) }
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        da = a.join().unwrap();
        if let Some(b) = b {
            db = b.join().unwrap();
        }
    });
    let f = SIDES[0].stopped.load(Acquire) as u64 | (SIDES[1].stopped.load(Acquire) as u64) << 1 | (BLOCKED.load(Acquire) as u64) << 2;
    [da, db, SIDES[0].shared.load(Relaxed), SIDES[1].shared.load(Relaxed), SIDES[0].edges.load(Relaxed), SIDES[1].edges.load(Relaxed), f]
}

fn launch(ops: &[Op], s: Sched) -> (i32, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            let r = child(ops, s);
            let b: Vec<u8> = r.iter().flat_map(|x| x.to_le_bytes()).collect();
            write(fds[1], b.as_ptr(), b.len());
            _exit(0);
        }
        close(fds[1]);
        (pid, fds[0])
    }
}
fn collect(h: (i32, i32)) -> Result<Res, String> {
    let mut b = [0u8; 56];
    let mut n = 0;
    let mut st = 0i32;
    unsafe {
        loop {
            let k = read(h.1, b.as_mut_ptr().add(n), 56 - n);
            if k <= 0 {
                break;
            }
            n += k as usize;
        }
        close(h.1);
        waitpid(h.0, &mut st, 0);
    }
    if st & 0x7f != 0 {
        return Err(format!("the process dies with signal {}", st & 0x7f));
    }
    match (st >> 8 & 0xff, n) {
        (0, 56) => {
            let mut r = [0u64; 7];
            (0..7).for_each(|i| r[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()));
            Ok(r)
        }
        (9, _) => Err("no end within 60 s (deadlock)".into()),
        x => {
            eprintln!("schedule process: {:?}", x);
            std::process::exit(70)
        }
    }
}
fn run_all(ops: &[Op], list: &[Sched], width: usize, mut f: impl FnMut(usize, Result<Res, String>) -> bool) {
    let mut pending = std::collections::VecDeque::new();
    for (i, s) in list.iter().enumerate() {
        if pending.len() == width {
            let (j, h) = pending.pop_front().unwrap();
            if !f(j, collect(h)) {
                break;
            }
        }
        pending.push_back((i, launch(ops, *s)));
    }
    let mut go = true;
    for (j, h) in pending {
        let r = collect(h);
        go = go && f(j, r);
    }
}

/// all indices below n, or both ends and a lattice
fn points(n: u64, cap: u64) -> Vec<u64> {
    if n <= cap {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..cap / 3).chain(n - cap / 3..n).collect();
    let m = cap - 2 * (cap / 3);
    v.extend((1..=m).map(|k| n * k / (m + 1)));
    v.sort_unstable();
    v.dedup();
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let q = a[1] != "thorough";
    let (out, width) = (&a[2], a[3].parse::<usize>().unwrap());
    let until = a.get(4).map(|x| x.parse::<f64>().unwrap());
    let late = || until.map_or(false, |u| std::time::UNIX_EPOCH.elapsed().unwrap().as_secs_f64() > u);
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let par = PAR;
    // memory that nobody writes
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let mut w = l.split_whitespace();
        let (r, p) = (w.next().unwrap(), w.next().unwrap());
        let (x, y) = r.split_once('-').unwrap();
        if !p.contains('w') {
            unsafe { (*std::ptr::addr_of_mut!(CONSTANT)).push((usize::from_str_radix(x, 16).unwrap(), usize::from_str_radix(y, 16).unwrap())) };
        }
    }
    let keys = model_keys(par, 2);
    let seed = |j: u64| stream(700 + j, par.seed_bytes());
    let near = |v: &[u8], p: usize| {
        let mut v = v.to_vec();
        v[p] ^= 1;
        v
    };
    let (c0, _) = par.enc(&keys[0].pk, &seed(0));
    let (c1, _) = par.enc(&keys[0].pk, &seed(1));
    let op = |name, kind, pk: &[u8], sk: &[u8], ct: &[u8], script: Vec<u8>| Op { name, kind, pk: pk.to_vec(), sk: sk.to_vec(), ct: ct.to_vec(), script };
    let no: &[u8] = &[];
    let mut ops = vec![
        op("keypair", 0, no, no, no, seed(2)),
        op("keypair, seed differs in one byte", 0, no, no, no, near(&seed(2), 3)),
        op("enc", 1, &keys[0].pk, no, no, seed(0)),
        op("enc, other seed", 1, &keys[0].pk, no, no, seed(1)),
        op("enc, other key", 1, &keys[1].pk, no, no, seed(0)),
        op("dec", 2, no, &keys[0].sk, &c0, vec![]),
        op("dec, other ciphertext", 2, no, &keys[0].sk, &c1, vec![]),
        op("dec, invalid ciphertext", 2, no, &keys[0].sk, &near(&c0, 9), vec![]),
        op("dec, other key", 2, no, &keys[1].sk, &c0, vec![]),
        op("generator", 4, no, no, no, seed(3)),
        op("generator, other seed", 4, no, no, no, seed(4)),
        op("keypair, RNG fails at once", 5, no, no, no, seed(2)),
        op("enc, RNG fails", 7, &keys[0].pk, no, no, seed(0)),
    ];
    ops.push(op("keypair and enc with the bundled generator", 3, no, no, no, seed(3)));
    ops.push(op("keypair, RNG fails at the second request", 6, no, no, no, seed(2)));
    ops.push(op("dec, seed of the rejection changed", 2, no, &near(&keys[0].sk, par.sk_bytes() - 1), &near(&c0, 9), vec![]));
    let n = ops.len();
    // alone
    let mut alone: Vec<[Res; 2]> = vec![[[0; 7]; 2]; n];
    let list: Vec<Sched> = (0..2 * n).map(|i| Sched { warm: i % 2 == 1, a: i / 2, b: None, stop: [NEVER; 4] }).collect();
    let mut bad: Option<(Sched, String)> = None;
    let (mut runs, mut schedules) = (0u64, 0u64);
    let mut tags: std::collections::BTreeMap<&str, u64> = Default::default();
    run_all(&ops, &list, width, |i, r| {
        runs += 1;
        match r {
            Ok(r) => alone[i / 2][i % 2] = r,
            Err(e) => {
                bad.get_or_insert((list[i], e));
            }
        }
        true
    });
    if alone.iter().any(|r| r[0][4] == 0) && bad.is_none() {
        eprintln!("no instrumentation events");
        std::process::exit(70);
    }
    let touched: u64 = alone.iter().map(|r| r[0][2].max(r[1][2])).sum();
    for (i, r) in alone.iter().enumerate() {
        eprintln!("[C10 interleave {}] {}: {} edges, shared accesses {} cold, {} warm", par.n, ops[i].name, r[0][4], r[0][2], r[1][2]);
        if r[0][0] != r[1][0] && bad.is_none() {
            bad = Some((Sched { warm: true, a: i, b: None, stop: [NEVER; 4] }, "the result differs from that of a fresh process".into()));
        }
    }
    // schedules
    let mut list: Vec<Sched> = vec![];
    let (cap1, cap2, lattice) = if q { (40, 24, 9) } else { (400, 60, 60) };
    for x in 0..n {
        for y in 0..n {
            let long = ops[x].kind == 3 || ops[y].kind == 3;
            let (cap1, cap2) = if long { (cap1 / 8, cap2 / 4) } else { (cap1, cap2) };
            let heavy = [0, 3, 6].contains(&ops[x].kind) && [0, 3, 6].contains(&ops[y].kind);
            // at edges, whatever the thread accesses
            let e = alone[x][0][4];
            let m = if q && heavy { 3 } else { lattice };
            for k in 1..=m {
                list.push(Sched { warm: false, a: x, b: Some(y), stop: [NEVER, e * k / (m + 1) + (y as u64 % 7), NEVER, NEVER] });
            }
            for warm in [false, true] {
                let (sx, sy) = (alone[x][warm as usize][2], alone[y][warm as usize][2]);
                for p in points(sx, cap1) {
                    list.push(Sched { warm, a: x, b: Some(y), stop: [p, NEVER, NEVER, NEVER] });
                }
                for p in points(sx, cap2) {
                    for r in points(sy, cap2) {
                        list.push(Sched { warm, a: x, b: Some(y), stop: [p, NEVER, r, NEVER] });
                    }
                }
            }
        }
    }
    let mut done = 0u64;
    if bad.is_none() {
        run_all(&ops, &list, width, |i, r| {
            done += 1;
            let s = list[i];
            match r {
                Err(e) => bad = Some((s, e)),
                Ok(r) => {
                    runs += 2;
                    schedules += 1;
                    *tags.entry(match r[6] {
                        f if f & 4 != 0 => "not possible (lock held)",
                        0 => "one after the other",
                        3 => "two switches",
                        _ => "one switch",
                    }).or_insert(0) += 1;
                    if r[0] != alone[s.a][0][0] {
                        bad = Some((s, "the result of the interrupted operation differs from its result alone".into()));
                    } else if r[1] != alone[s.b.unwrap()][0][0] {
                        bad = Some((s, "the result of the interrupting operation differs from its result alone".into()));
                    }
                }
            }
            bad.is_none() && !late()
        });
    }
    let show = |v: u64| if v == NEVER { "-".to_string() } else { v.to_string() };
    let viol = match &bad {
        None => "null".to_string(),
        Some((s, what)) => format!(
            "{{\"space\":\"\",\"index\":0,\"what\":\"threads: [{}] interrupted at shared access {} / edge {} by [{}] (itself interrupted at {}){}: {}\",\"data\":{{\"sk\":\"{}\",\"ct\":\"{}\",\"pk\":\"{}\",\"script\":\"{}\"}}}}",
            ops[s.a].name, show(s.stop[0]), show(s.stop[1]), s.b.map_or("nothing", |b| ops[b].name), show(s.stop[2]), if s.warm { ", both run before" } else { "" }, what,
            hex(&ops[s.a].sk), hex(&ops[s.a].ct), hex(&ops[s.a].pk), hex(&ops[s.a].script)
        ),
    };
    let t: Vec<String> = tags.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let j = format!(
        "{{\"property\":\"C10\",\"variant\":\"n{}\",\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"shared_accesses\":{},\"wall_s\":{:.2},\"spaces\":[{{\"space\":\"interleave\",\"rule\":\"pairs of {} operations, switched at accesses to shared memory (up to 2 switches) and at a lattice of {} edges, each schedule in a fresh process\",\"size\":{},\"explored\":{},\"outcome_classes\":{{{}}}}}],\"violation\":{}}}\n",
        par.n, schedules + 2 * n as u64, runs, schedules, n, touched, t0.elapsed().as_secs_f64(), n, lattice, list.len(), done, t.join(","), viol
    );
    std::fs::write(out, j).unwrap();
    eprintln!("[C10 interleave {}] {:.1}s {} schedules, {:?}, {} shared accesses", par.n, t0.elapsed().as_secs_f64(), done, tags, touched);
    std::process::exit(bad.is_some() as i32);
}
