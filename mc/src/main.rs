#![allow(dead_code)]
use ntrust_mc::explore::{self, Explorer, Tier};
use ntrust_mc::model::{self, ntru::*};
use ntrust_mc::{checks, meter, real, sealed, spaces};
use std::time::Instant;

#[cfg(feature = "v677")]
const VARIANT: (&str, Par) = ("v677", HPS2048677);
#[cfg(feature = "v821")]
const VARIANT: (&str, Par) = ("v821", HPS4096821);
#[cfg(feature = "v701")]
const VARIANT: (&str, Par) = ("v701", HRSS701);
#[cfg(feature = "v509")]
const VARIANT: (&str, Par) = ("v509", HPS2048509);
#[cfg(not(any(feature = "v509", feature = "v677", feature = "v821", feature = "v701")))]
const VARIANT: (&str, Par) = ("default", HPS2048509);

/// allocations are the harness's, also inside sealed calls
struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        meter::heap(l.size() as i64);
        sealed::open(|| std::alloc::System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        meter::heap(-(l.size() as i64));
        sealed::open(|| std::alloc::System.dealloc(p, l))
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        meter::heap(l.size() as i64);
        sealed::open(|| std::alloc::System.alloc_zeroed(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        meter::heap(n as i64 - l.size() as i64);
        sealed::open(|| std::alloc::System.realloc(p, l, n))
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

// the environment and the clock are read without a system call: these replace the C library's
extern "C" {
    static mut environ: *const *const u8;
}
/// the environment block once `environ` itself is hidden from the implementation
static mut ENV: *const *const u8 = std::ptr::null();
#[no_mangle]
unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    sealed::notice(sealed::ENVIRONMENT);
    let mut e = if ENV.is_null() { environ } else { ENV };
    while !e.is_null() && !(*e).is_null() {
        let mut i = 0;
        while *name.add(i) != 0 && *name.add(i) == *(*e).add(i) {
            i += 1;
        }
        if *name.add(i) == 0 && *(*e).add(i) == b'=' {
            return (*e).add(i + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
unsafe extern "C" fn secure_getenv(name: *const u8) -> *const u8 {
    getenv(name)
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, t: *mut u8) -> i32 {
    sealed::notice(sealed::CLOCK);
    sealed::raw(228, [id as u64, t as u64, 0, 0, 0, 0]) as i32
}
#[no_mangle]
unsafe extern "C" fn gettimeofday(t: *mut u8, z: *mut u8) -> i32 {
    sealed::notice(sealed::CLOCK);
    sealed::raw(96, [t as u64, z as u64, 0, 0, 0, 0]) as i32
}

/// usage: ntrust-mc check PROP TIER OUT [--digests DIR] [--only SPACE INDEX]
///        ntrust-mc single I            (one operation of the C10 alphabet, for a fresh process)
///        ntrust-mc kat COUNT           (response file of the model)
///        ntrust-mc scan FROM TO        (key-generation streams that end with a panic)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|info| {
        // panics of the implementation are caught and judged; those of the check itself are shown
        if let Some(l) = info.location() {
            if l.file().contains("ntrust-mc") || l.file().starts_with("src/") && !l.file().contains("repo") {
                eprintln!("panic: {}", info);
            }
        }
    }));
    match a.get(1).map(|s| s.as_str()) {
        Some("single") => checks::history::single(VARIANT.1, a[2].parse().unwrap()),
        Some("kat") => print!("{}", kat(a[2].parse().unwrap())),
        Some("scan") => {
            let (lo, hi): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            std::thread::scope(|s| {
                for t in 0..8 {
                    s.spawn(move || {
                        for j in (lo + t..hi).step_by(8) {
                            let mut rng = real::ScriptRng::new([spaces::stream(j, VARIANT.1.seed_bytes()), vec![0; 32]].concat());
                            let e = real::keypair(&mut rng, &mut vec![], &mut vec![]);
                            if e != real::End::Ok {
                                println!("{} {:?}", j, e);
                            }
                        }
                    });
                }
            });
        }
        Some("check") => {
            let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let find = |n: &str| a.iter().position(|x| x == n);
            let mut ex = Explorer {
                prop: a[2].clone(),
                variant: VARIANT.0,
                par: VARIANT.1,
                tier,
                threads: std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8),
                only: find("--only").map(|p| (a[p + 1].clone(), a[p + 2].parse().unwrap())),
                digest_dir: find("--digests").map(|p| a[p + 1].clone()),
                stats: vec![],
                transitions: 0,
                traces: 0,
                states: vec![],
                outcomes: Default::default(),
                model_states: 0,
                model_transitions: 0,
                violation: None,
                out: a[4].clone(),
                started: Instant::now(),
                until: std::env::var("MC_UNTIL").ok().and_then(|x| x.parse::<f64>().ok()).map(|x| std::time::UNIX_EPOCH + std::time::Duration::from_secs_f64(x)),
            };
            if ex.prop == "C17" {
                unsafe {
                    ENV = environ;
                    sealed::hide_environment(std::ptr::addr_of_mut!(environ));
                }
            }
            if !checks::run(&mut ex) {
                eprintln!("unknown property {}", a[2]);
                std::process::exit(2);
            }
            ex.write_result(ex.violation.clone());
            std::process::exit(if ex.violation.is_some() { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: ntrust-mc check|single|kat|scan ...");
            std::process::exit(2);
        }
    }
}

/// the NIST response file of the parameter set, computed by the model alone
fn kat(count: usize) -> String {
    use explore::hex;
    let up = |b: &[u8]| hex(b).to_uppercase();
    let par = VARIANT.1;
    let name = match par.n {
        509 => "ntruhps2048509",
        677 => "ntruhps2048677",
        821 => "ntruhps4096821",
        _ => "ntruhrss701",
    };
    let mut e = [0u8; 48];
    for (i, x) in e.iter_mut().enumerate() {
        *x = i as u8;
    }
    let mut d = model::drbg::Drbg::seeded(&e);
    let mut out = format!("# {}\n\n", name);
    for c in 0..count {
        let seed = d.bytes(48);
        let mut s = [0u8; 48];
        s.copy_from_slice(&seed);
        let mut g = model::drbg::Drbg::seeded(&s);
        let fg = g.bytes(par.seed_bytes());
        let mut prf = [0u8; 32];
        prf.copy_from_slice(&g.bytes(32));
        let k = par.keypair(&fg, &prf).unwrap();
        let (ct, ss) = par.enc(&k.pk, &g.bytes(par.seed_bytes()));
        out += &format!("count = {}\nseed = {}\npk = {}\nsk = {}\nct = {}\nss = {}\n\n", c, up(&seed), up(&k.pk), up(&k.sk), up(&ct), up(&ss));
    }
    out
}
