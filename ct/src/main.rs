//! C14: for fixed public inputs the trace of executed edges and of accessed addresses is
//! compared over an enumeration of secrets (relational exploration).
use ntrust_ct_ops::{self as ops, Io, Script};
use ntrust_mc::explore::{hash64, hex, Tier};
use ntrust_mc::model::ntru::*;
use ntrust_mc::spaces::*;
use std::time::Instant;

#[cfg(feature = "v677")]
const PAR: Par = HPS2048677;
#[cfg(feature = "v821")]
const PAR: Par = HPS4096821;
#[cfg(feature = "v701")]
const PAR: Par = HRSS701;
#[cfg(not(any(feature = "v677", feature = "v821", feature = "v701")))]
const PAR: Par = HPS2048509;

// ---- instrumentation callbacks (this crate is not instrumented; single thread) --------------
static mut ON: bool = false;
static mut H: u64 = 0;
static mut N: u64 = 0;
static mut BLOCKS: u64 = 0;
static mut LOG: Option<Vec<(u8, u64)>> = None;

#[inline(always)]
unsafe fn ev(kind: u8, a: u64) {
    if ON {
        H = (H ^ a ^ ((kind as u64) << 56)).wrapping_mul(0x9fb2_1c65_1e98_df25);
        H ^= H >> 29;
        N += 1;
        if kind == 0 {
            BLOCKS += 1;
        }
        let l = &mut *std::ptr::addr_of_mut!(LOG);
        if let Some(l) = l {
            ON = false; // the log itself uses the ordinary heap
            l.push((kind, a));
            ON = true;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    ev(0, g as u64)
}
static mut GUARDS: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    GUARDS += (b as u64 - a as u64) / 4;
}
#[no_mangle]
pub static mut __memprof_shadow_memory_dynamic_address: usize = 0;
#[no_mangle]
pub unsafe extern "C" fn __memprof_load(a: usize) {
    ev(1, a as u64)
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_store(a: usize) {
    ev(2, a as u64)
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    ev(1, s as u64);
    ev(2, d as u64);
    ev(3, n as u64);
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    ev(1, s as u64);
    ev(2, d as u64);
    ev(3, n as u64);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __memprof_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    ev(2, d as u64);
    ev(3, n as u64);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
// comparisons of byte strings stop at the first difference
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    let mut r = 0;
    while i < n && r == 0 {
        r = a.add(i).read_volatile() as i32 - b.add(i).read_volatile() as i32;
        i += 1;
    }
    ev(1, a as u64);
    ev(1, b as u64);
    ev(3, i as u64);
    r
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

// ---- deterministic heap: what the traced operation allocates comes from an arena that starts
// afresh with every operation, so that heap addresses are the same in every run ----------------
const ARENA: usize = 32 << 20;
#[repr(align(64))]
struct Arena(std::cell::UnsafeCell<[u8; ARENA]>);
unsafe impl Sync for Arena {}
static HEAP: Arena = Arena(std::cell::UnsafeCell::new([0; ARENA]));
static mut TOP: usize = 0;
struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if ON {
            let a = (TOP + l.align() - 1) & !(l.align() - 1);
            if a + l.size() <= ARENA && l.align() <= 64 {
                TOP = a + l.size();
                return (HEAP.0.get() as *mut u8).add(a);
            }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let o = (p as usize).wrapping_sub(HEAP.0.get() as usize);
        if o >= ARENA {
            std::alloc::System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Alloc = Alloc;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Trace {
    hash: u64,
    events: u64,
    blocks: u64,
}

#[inline(never)]
fn traced(io: &mut Io, op: u8) -> (Trace, bool) {
    unsafe {
        H = 0x1234_5678;
        N = 0;
        BLOCKS = 0;
        TOP = 0;
        ON = true;
    }
    let ok = match op {
        0 => ops::keypair(io),
        1 => ops::enc(io),
        _ => ops::dec(io),
    };
    unsafe {
        ON = false;
        (Trace { hash: H, events: N, blocks: BLOCKS }, ok)
    }
}

/// inputs: (pk, sk, ct, script)
type In = (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>);

fn load(io: &mut Io, x: &In) {
    let put = |d: &mut [u8], s: &[u8]| {
        d.iter_mut().for_each(|b| *b = 0);
        let l = d.len().min(s.len());
        d[..l].copy_from_slice(&s[..l]);
    };
    put(&mut io.pk, &x.0);
    put(&mut io.sk, &x.1);
    put(&mut io.ct, &x.2);
    io.k = [0; ops::SS];
    io.rng.pos = 0;
    put(&mut io.rng.buf, &x.3);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let q = tier == Tier::Quick;
    let out = &a[2];
    let (shard, shards): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let t0 = Instant::now();
    let par = PAR;
    let mut io = Box::new(Io { pk: [0; ops::PK], sk: [0; ops::SK], ct: [0; ops::CT], k: [0; ops::SS], rng: Script { buf: [0; 8192], pos: 0 } });
    let mut groups: Vec<(String, u8, Vec<Space<In>>)> = vec![];

    // key generation: everything is secret
    let step = if q { 9 } else { 1 };
    let mut v = vec![];
    for s in key_spaces(par, Tier::Quick) {
        let g = s.gen;
        let st = if s.name == "historic" { 1 } else { step };
        v.push(Space { name: s.name, rule: s.rule, total: (s.total + st - 1) / st, gen: Box::new(move |i| { let k = g(i * st); (vec![], vec![], vec![], [k.seed, k.prf.to_vec()].concat()) }) as Box<dyn Fn(u64) -> In + Sync + Send> });
    }
    groups.push(("keypair".into(), 0, v));

    // encapsulation: the public key is public, the randomness secret
    let keys = model_keys(par, 3);
    for (name, pk) in [("honest pk", keys[0].pk.clone()), ("zero pk", vec![0u8; par.q_bytes()]), ("all-ones pk", vec![0xff; par.q_bytes()])] {
        let step = if q { 7 } else { 1 };
        let mut v = vec![];
        for s in rand_spaces(par, Tier::Quick) {
            let g = s.gen;
            let pk = pk.clone();
            let st = if s.total > 600 { step } else { 1 };
            v.push(Space { name: s.name, rule: s.rule, total: (s.total + st - 1) / st, gen: Box::new(move |i| (pk.clone(), vec![], vec![], g(i * st))) as Box<dyn Fn(u64) -> In + Sync + Send> });
        }
        groups.push((format!("encapsulation, {}", name), 1, v));
    }

    // decapsulation: the ciphertext is public, the secret key and the verdict are secret
    let (c0, _) = par.enc(&keys[0].pk, &stream(4, par.seed_bytes()));
    let mut cpad = c0.clone();
    *cpad.last_mut().unwrap() |= 0x80;
    let (rt, m) = par.sample_rm(&stream(4, par.seed_bytes()));
    let mut r: Vec<i32> = rt.iter().map(|&x| [0, 1, -1][x as usize]).collect();
    r[par.deg() - 1] = 2;
    let rbad = craft(par, &keys[0].h, &r, &m);
    let mut m2 = m.clone();
    m2[0] = (m2[0] + 1) % 3;
    r[par.deg() - 1] = 1;
    let mbad = craft(par, &keys[0].h, &r, &m2);
    let sks: std::sync::Arc<Vec<Vec<u8>>> = {
        let mut l: Vec<Vec<u8>> = vec![];
        for k in &keys {
            l.push(k.sk.clone());
        }
        let b = keys[0].sk.clone();
        let t = par.tri_bytes();
        // one part of the matching key changed: other rejection reasons for the same ciphertext
        for p in [0, t / 2, t - 1, t, t + t / 2, 2 * t - 1, 2 * t, 2 * t + 7, 2 * t + par.q_bytes() / 2, 2 * t + par.q_bytes() - 1, b.len() - 32, b.len() - 1] {
            for x in [1u8, 2, 80, 128, 255] {
                let mut s = b.clone();
                s[p] = s[p].wrapping_add(x);
                l.push(s);
            }
        }
        for x in [0u8, 1, 0x79, 0xf2, 0xff] {
            l.push(vec![x; par.sk_bytes()]);
        }
        // each part of the matching key replaced by zero, a monomial or a constant
        let q1 = |v: Vec<u16>| par.pack_q(&v);
        let tern = |i: usize| -> Vec<u8> {
            let mut v = vec![0u8; par.n];
            match i {
                0 => {}
                1 | 2 => v[..par.deg()].iter_mut().for_each(|x| *x = i as u8),
                i => v[(i - 3) / 2 * 37 % par.deg()] = 1 + (i % 2) as u8,
            }
            v
        };
        for i in 0..if q { 33 } else { 203 } {
            let p = par.pack_3(&tern(i));
            for o in [0, t] {
                let mut s = b.clone();
                s[o..o + t].copy_from_slice(&p);
                l.push(s);
            }
            let mut s = b.clone();
            s[..t].copy_from_slice(&p);
            s[t..2 * t].copy_from_slice(&p);
            l.push(s);
            let mut s = b.clone();
            s[2 * t..2 * t + par.q_bytes()].copy_from_slice(&q1(tern(i).iter().map(|&x| [0, 1, par.mask()][x as usize]).collect()));
            l.push(s);
        }
        let n = if q { 60 } else { 1500 };
        for s in key_spaces(par, Tier::Quick) {
            if s.name.starts_with("prf") {
                continue;
            }
            for i in 0..s.total.min(if q { 6 } else { 40 }) {
                let k = (s.gen)(i * (s.total / s.total.min(if q { 6 } else { 40 })));
                if let Some(k) = par.keypair(&k.seed, &k.prf) {
                    l.push(k.sk);
                }
            }
        }
        for i in 0..n {
            l.push(stream(i + 12345, par.sk_bytes()));
        }
        std::sync::Arc::new(l)
    };
    for (name, ct) in [("ciphertext honest for one of the keys", c0), ("its padded variant", cpad), ("one coefficient of r out of range", rbad), ("m of wrong weight", mbad), ("zero ciphertext", vec![0; par.q_bytes()]), ("all-ones ciphertext", vec![0xff; par.q_bytes()])] {
        let s2 = sks.clone();
        let ct2 = ct.clone();
        groups.push((format!("decapsulation, {}", name), 2, vec![sp("secret keys", "matching, foreign, damaged, structured and dense secret keys", sks.len() as u64, move |i| (vec![], s2[i as usize].clone(), ct2.clone(), vec![]))]));
    }

    // what the library sets up once per process happens before anything is traced
    for (_, op, spaces) in &groups {
        for i in [0, 1] {
            load(&mut io, &(spaces[0].gen)(i));
            match op {
                0 => ops::keypair(&mut io),
                1 => ops::enc(&mut io),
                _ => ops::dec(&mut io),
            };
        }
    }

    let (mut states, mut transitions, mut traces) = (std::collections::HashSet::new(), 0u64, 0u64);
    let mut viol: Option<String> = None;
    let mut parts = vec![];
    'all: for (name, op, spaces) in &groups {
        let mut first: Option<(Trace, In)> = None;
        let mut accepts = std::collections::HashSet::new();
        let mut n = 0;
        for s in spaces {
            for i in 0..s.total {
                // every shard runs the reference case, then its own share
                if first.is_some() && i % shards != shard {
                    continue;
                }
                let x = (s.gen)(i);
                states.insert(hash64(&[name.as_bytes(), &x.0, &x.1, &x.2, &x.3]));
                load(&mut io, &x);
                let (t, _) = traced(&mut io, *op);
                accepts.insert(hash64(&[&io.k, &io.ct, &io.pk]));
                transitions += 1;
                n += 1;
                match &first {
                    None => {
                        if t.blocks == 0 {
                            eprintln!("no instrumentation events");
                            std::process::exit(70);
                        }
                        first = Some((t, x));
                    }
                    Some((f, fx)) => {
                        traces += 1;
                        if *f != t {
                            // locate the first difference
                            let mut logs = vec![];
                            for y in [fx, &x] {
                                unsafe { LOG = Some(Vec::new()) };
                                load(&mut io, y);
                                traced(&mut io, *op);
                                logs.push(unsafe { (*std::ptr::addr_of_mut!(LOG)).take().unwrap() });
                            }
                            let p = logs[0].iter().zip(&logs[1]).position(|(a, b)| a != b).unwrap_or(logs[0].len().min(logs[1].len()));
                            let kind = |e: Option<&(u8, u64)>| match e {
                                None => "end",
                                Some((0, _)) => "basic block",
                                Some((1, _)) => "load address",
                                Some((2, _)) => "store address",
                                _ => "length",
                            };
                            let blk = logs[0][..p.min(logs[0].len())].iter().filter(|e| e.0 == 0).count();
                            viol = Some(format!(
                                "{{\"space\":\"{}\",\"index\":{},\"what\":\"{}: traces of two secrets differ at event {} (after {} blocks): {} versus {}; {} and {} events\",\"data\":{{\"secret_a\":\"{}\",\"secret_b\":\"{}\",\"ct\":\"{}\",\"pk\":\"{}\"}}}}",
                                s.name, i, name, p, blk, kind(logs[0].get(p)), kind(logs[1].get(p)), f.events, t.events,
                                hex(&[&fx.1[..], &fx.3[..]].concat()), hex(&[&x.1[..], &x.3[..]].concat()), hex(&x.2), hex(&x.0)
                            ));
                            break 'all;
                        }
                    }
                }
            }
        }
        let f = first.unwrap().0;
        parts.push(format!("{{\"space\":\"{}\",\"rule\":\"relational: all secrets against the first, {} sub-spaces\",\"size\":{},\"explored\":{},\"outcome_classes\":{{\"distinct_results\":{},\"events_per_run\":{},\"blocks_per_run\":{}}}}}", name, spaces.len(), n, n, accepts.len(), f.events, f.blocks));
        eprintln!("[C14 {}] {:7.2}s {}: {} secrets, {} events, {} distinct results", par.n, t0.elapsed().as_secs_f64(), name, n, f.events, accepts.len());
    }
    let j = format!(
        "{{\"property\":\"C14\",\"variant\":\"n{}\",\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":0,\"guards\":{},\"wall_s\":{:.2},\"spaces\":[{}],\"violation\":{}}}\n",
        par.n, states.len(), transitions, traces, unsafe { GUARDS }, t0.elapsed().as_secs_f64(), parts.join(","), viol.clone().unwrap_or("null".into())
    );
    std::fs::write(out, j).unwrap();
    std::process::exit(viol.is_some() as i32);
}
