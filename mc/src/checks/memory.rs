//! C18: operations give back the memory they take and get by with a bounded amount of it.
use crate::explore::{vio, Check, Explorer, Rec};
use crate::meter::{metered, Use, DEEP};
use crate::real::{RngFault, CT, PK, SK, SS};
use crate::spaces::*;
use ntrust_native::{crypto_kem_dec, crypto_kem_enc, crypto_kem_keypair, AesState, RNGState};
use std::cell::Cell;
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// bounds of the property
const HEAP: i64 = 1 << 20;
const RETAIN: i64 = 64 << 10;
const STACK: usize = 256 << 10;

/// serves a script without taking memory itself
struct Lean<'a> {
    script: &'a [u8],
    pos: usize,
    no: usize,
    fail_at: usize,
    panic_at: usize,
}
impl RNGState for Lean<'_> {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let no = self.no;
        self.no += 1;
        assert!(no < 100_000, "the RNG was asked 100000 times in one call");
        if no == self.panic_at {
            std::panic::resume_unwind(Box::new(7u8));
        }
        if no == self.fail_at {
            return Err(Box::new(RngFault(3)));
        }
        for b in x.iter_mut() {
            *b = self.script.get(self.pos).copied().unwrap_or((self.pos * 29) as u8);
            self.pos += 1;
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _e: [u8; 48]) {}
}
fn lean(script: &[u8]) -> Lean<'_> {
    Lean { script, pos: 0, no: 0, fail_at: usize::MAX, panic_at: usize::MAX }
}

thread_local! {
    static WARM: Cell<u32> = const { Cell::new(0) };
    static KEPT: Cell<i64> = const { Cell::new(0) };
}

/// changes two bytes in the middle
fn vary(b: &mut [u8], v: u16) {
    let m = b.len() / 2;
    b[m] ^= v as u8;
    b[m + 1] ^= (v >> 8) as u8;
}

/// `f` performs the operation, drops what it returns and says how it ended; its argument selects
/// the input itself (0) or a similar one
fn judge(rec: &mut Rec, op: u32, what: &str, data: &[(&str, &[u8])], mut f: impl FnMut(u16) -> &'static str) -> Check {
    let mut call = |rec: &mut Rec, v: u16| -> (&'static str, Use) {
        rec.transitions += 1;
        rec.beat();
        metered(|| catch_unwind(AssertUnwindSafe(|| f(v))).unwrap_or("no result"))
    };
    // what a thread keeps of its first call of an operation (tables, scratch space) is not a leak
    if WARM.with(|w| w.get()) & op == 0 {
        WARM.with(|w| w.set(w.get() | op));
        call(rec, 0);
    }
    let (end, u) = call(rec, 0);
    rec.tag(end);
    rec.outcome(&[end.as_bytes(), &[(u.top > 0) as u8], &(u.stack >> 12).to_le_bytes()]);
    if u.stack > STACK {
        let deep = if u.stack + 64 >= DEEP { "at least ".to_string() } else { String::new() };
        return vio(format!("{} uses {}{} KiB of stack (bound {} KiB)", what, deep, u.stack >> 10, STACK >> 10), data);
    }
    if u.top > HEAP {
        return vio(format!("{} holds {} KiB of heap memory at a time (bound {} KiB)", what, u.top >> 10, HEAP >> 10), data);
    }
    if u.kept > 0 {
        // something remembered is not a leak; memory that goes on growing, with the same input
        // or with inputs that differ from it in two bytes, is
        let first: i64 = (0..16).map(|_| call(rec, 0).1.kept).sum();
        let more: i64 = (0..128).map(|_| call(rec, 0).1.kept).sum();
        if more > 0 {
            return vio(format!("{} keeps {} bytes of heap memory, {} bytes in 16 repetitions with the same input and {} in 128 more", what, u.kept, first, more), data);
        }
        let first: i64 = (1..=256).map(|v| call(rec, v).1.kept).sum();
        let more: i64 = (257..=1024).map(|v| call(rec, v).1.kept).sum();
        if more > 0 {
            return vio(format!("{} keeps {} bytes of heap memory, {} bytes with 256 similar inputs and {} with 768 more", what, u.kept, first, more), data);
        }
        rec.tag("kept once");
    }
    KEPT.with(|k| k.set(k.get() + u.kept));
    Ok(())
}

fn ended(r: Result<(), Box<dyn Error>>) -> &'static str {
    match r {
        Ok(()) => "Ok",
        Err(_) => "Err",
    }
}
fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    let mut a = [0u8; N];
    a.copy_from_slice(v);
    a
}

fn key(rec: &mut Rec, script: &[u8], fail_at: usize, panic_at: usize) -> Check {
    rec.state(&[b"K", script, &fail_at.to_le_bytes(), &panic_at.to_le_bytes()]);
    let (mut pk, mut sk) = ([0u8; PK], [0u8; SK]);
    let op = if fail_at != usize::MAX { 2 } else if panic_at != usize::MAX { 4 } else { 1 };
    let mut s = [0u8; 8192];
    s[..script.len()].copy_from_slice(script);
    judge(rec, op, "key generation", &[("script", script)], |v| {
        let s = &mut s[..script.len()];
        vary(s, v);
        let mut r = Lean { fail_at, panic_at, ..lean(s) };
        let e = ended(crypto_kem_keypair(&mut pk, &mut sk, &mut r));
        vary(s, v);
        e
    })
}
fn enc(rec: &mut Rec, pk: &[u8], script: &[u8], fail_at: usize, panic_at: usize) -> Check {
    rec.state(&[b"E", pk, script, &fail_at.to_le_bytes(), &panic_at.to_le_bytes()]);
    let (mut c, mut k, p) = ([0u8; CT], [0u8; SS], arr::<PK>(pk));
    let op = if fail_at != usize::MAX { 16 } else if panic_at != usize::MAX { 32 } else { 8 };
    let mut s = [0u8; 8192];
    s[..script.len()].copy_from_slice(script);
    judge(rec, op, "encapsulation", &[("pk", pk), ("script", script)], |v| {
        let s = &mut s[..script.len()];
        vary(s, v);
        let mut r = Lean { fail_at, panic_at, ..lean(s) };
        let e = ended(crypto_kem_enc(&mut c, &mut k, &p, &mut r));
        vary(s, v);
        e
    })
}
fn dec(rec: &mut Rec, ct: &[u8], sk: &[u8]) -> Check {
    rec.state(&[b"D", ct, sk]);
    let (mut k, mut c, s) = ([0u8; SS], arr::<CT>(ct), arr::<SK>(sk));
    judge(rec, 64, "decapsulation", &[("sk", sk), ("ct", ct)], |v| {
        vary(&mut c, v);
        let e = ended(crypto_kem_dec(&mut k, &c, &s));
        vary(&mut c, v);
        e
    })
}

#[inline(never)]
fn large() {
    std::hint::black_box([1u8; 300 << 10]);
}

pub fn c18(ex: &mut Explorer) {
    let par = ex.par;
    ex.space("meter", "memory taken by the harness inside a metered call: each kind is noticed", 5, |i, rec| {
        rec.state(&[b"meter", &i.to_le_bytes()]);
        let (_, u) = metered(|| match i {
            0 => std::mem::forget(std::hint::black_box(vec![1u8; 100])),
            1 => drop(std::hint::black_box(vec![1u8; 3 << 20])),
            2 => large(),
            3 => {
                let mut v = std::hint::black_box(vec![1u8; 10]);
                v.reserve_exact(1000);
                std::mem::forget(v);
            }
            _ => {}
        });
        let ok = match i {
            0 => u.kept == 100,
            1 => u.kept == 0 && u.top == 3 << 20,
            2 => u.stack > 300 << 10 && u.stack < 310 << 10,
            3 => u.kept >= 1000,
            _ => u.kept == 0 && u.top == 0 && u.stack < 4096,
        };
        assert!(ok, "meter self test {}: {:?}", i, u);
        Ok(())
    });
    let keys = model_keys(par, 2);
    let q = ex.quick();
    let few = std::env::var("MC_FEW").is_ok();
    let thin = move |t: u64, small: u64| -> u64 {
        let small = if few { 2 } else { small };
        if q || few {
            (t / small).max(1)
        } else if t > 100_000 {
            4
        } else {
            1
        }
    };
    for s in key_spaces(par, ex.tier) {
        let cut = thin(s.total, 120);
        ex.space(&format!("key.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            key(rec, &[&x.seed[..], &x.prf].concat(), usize::MAX, usize::MAX)
        });
    }
    for s in rand_spaces(par, ex.tier) {
        let cut = thin(s.total, 1500);
        ex.space(&format!("enc.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            enc(rec, &keys[(i % 2) as usize].pk, &x, usize::MAX, usize::MAX)
        });
    }
    for s in pk_spaces(par, ex.tier) {
        let cut = thin(s.total, 1000);
        ex.space(&format!("enc.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            enc(rec, &x.pk, &x.seed, usize::MAX, usize::MAX)
        });
    }
    for s in dec_spaces(par, ex.tier).into_iter().chain(wild_dec_spaces(par, ex.tier)) {
        let cut = thin(s.total, 1000);
        ex.space(&format!("dec.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            dec(rec, &x.ct, &x.sk)
        });
    }
    let ns = if few { 2 } else { ex.by(64u64, 1024) };
    ex.space("fault", "operation and request (3) at which the RNG fails or panics x script", 6 * ns, |i, rec| {
        let (k, at) = [(true, 0), (true, 1), (false, 0)][(i % 3) as usize];
        let (f, p) = if i / 3 % 2 == 0 { (at, usize::MAX) } else { (usize::MAX, at) };
        let s = stream(i / 6, par.seed_bytes() + 32);
        if k {
            key(rec, &s, f, p)
        } else {
            enc(rec, &keys[0].pk, &s, f, p)
        }
    });
    // memory that is kept of many different inputs: within one case, on one thread
    let reps = if few { 15 } else { ex.by(1500u64, 20_000) };
    ex.space("growth", "many different inputs in a row (key generations, encapsulations, decapsulations of honest and of rejected ciphertexts, failing RNG): what is kept in total", 5, |op, rec| {
        KEPT.with(|k| k.set(0));
        for j in 0..if op == 0 { reps / 15 } else { reps } {
            let s = stream(j ^ 0x5151_0000, par.seed_bytes() + 32);
            let k = &keys[(j % 2) as usize];
            match op {
                0 => key(rec, &s, usize::MAX, usize::MAX)?,
                1 => enc(rec, &k.pk, &s, usize::MAX, usize::MAX)?,
                2 | 3 => {
                    let (mut c, mut x) = ([0u8; CT], [0u8; SS]);
                    if crypto_kem_enc(&mut c, &mut x, &arr(&k.pk), &mut lean(&s)).is_err() {
                        return vio("encapsulation fails", &[("seed", &s)]);
                    }
                    c[7] ^= (op == 3) as u8;
                    dec(rec, &c, &k.sk)?
                }
                _ => enc(rec, &k.pk, &s, 0, usize::MAX)?,
            }
            let kept = KEPT.with(|k| k.get());
            if kept > RETAIN {
                return vio(format!("{} bytes of heap memory are kept after {} calls with different inputs (bound {})", kept, j + 1, RETAIN), &[("seed", &s)]);
            }
        }
        Ok(())
    });
    let nd = if few { 4 } else { ex.by(64u64, 1024) };
    let lens: Vec<usize> = (0..=80).chain([255, 256, 257, 4095, 4096, 4097, 1 << 16, (1 << 20) + 3, 4 << 20]).collect();
    let nl = lens.len() as u64;
    ex.space("drbg", "generator: seed or adopt a state, then a request of every length 0..=80 and longer ones up to 4 MiB", nd * nl, |i, rec| {
        let (j, len) = (i / nl, lens[(i % nl) as usize]);
        if len > 4097 && j > 1 {
            rec.tag("skipped");
            return Ok(());
        }
        let st = stream(j, 64);
        let mut s = AesState::new();
        s.key.copy_from_slice(&st[..32]);
        s.v.copy_from_slice(&st[32..48]);
        if j % 4 == 1 {
            s.v[(j / 4 % 16) as usize..].fill(0xff);
        }
        s.reseed_counter = [0, 1, -1, i32::MAX, i32::MIN, 10_000, 1 << 20, 1 << 30][(j / 2 % 8) as usize];
        rec.state(&[&s.key, &s.v, &s.reseed_counter.to_le_bytes(), &len.to_le_bytes()]);
        let mut buf = vec![0u8; len];
        judge(rec, 128, "the generator", &[("key", &s.key), ("v", &s.v), ("length", &(len as u32).to_be_bytes())], |v| {
            let mut s = s.clone();
            vary(&mut s.key, v);
            if j % 2 == 0 {
                let mut e = [0u8; 48];
                e.copy_from_slice(&st[..48]);
                s.randombytes_init(e);
            }
            ended(s.randombytes(&mut buf))
        })
    });
}
