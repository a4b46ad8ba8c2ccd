//! C07 (RNG faults) and C08 (randomness consumption).
use crate::explore::{vio, Check, Explorer, Rec};
use crate::real::{self, End};
use crate::spaces::*;
use ntrust_native::{crypto_kem_enc, crypto_kem_keypair, RNGState};
use std::error::Error;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug)]
struct Custom(u64);
impl fmt::Display for Custom {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "custom {}", self.0)
    }
}
impl Error for Custom {}

const KINDS: usize = 7;
/// an error of each kind and its fingerprint
fn mk_err(kind: usize, tok: u64) -> Box<dyn Error> {
    use std::io::{Error as Io, ErrorKind as K};
    match kind {
        0 => Box::new(Custom(tok)),
        1 => Box::new(Io::new(K::Interrupted, format!("intr {}", tok))),
        2 => Box::new(Io::new(K::WouldBlock, format!("again {}", tok))),
        3 => Box::new(Io::from(K::UnexpectedEof)),
        4 => format!("text {}", tok).into(),
        5 => Box::new(fmt::Error),
        _ => Box::new(std::array::IntoIter::<u8, 1>::try_from_err()),
    }
}
trait TryFromErr {
    fn try_from_err() -> std::array::TryFromSliceError;
}
impl TryFromErr for std::array::IntoIter<u8, 1> {
    fn try_from_err() -> std::array::TryFromSliceError {
        <[u8; 1]>::try_from(&[][..]).unwrap_err()
    }
}
fn print_of(e: &(dyn Error + 'static)) -> String {
    let ty = if e.is::<Custom>() {
        "custom"
    } else if e.is::<std::io::Error>() {
        "io"
    } else if e.is::<fmt::Error>() {
        "fmt"
    } else if e.is::<std::array::TryFromSliceError>() {
        "slice"
    } else {
        "other"
    };
    format!("{}|{}|{:?}", ty, e, e)
}

/// fails at request `fail`, after writing `partial` bytes; recovers afterwards
struct FaultRng {
    script: Vec<u8>,
    pos: usize,
    requests: usize,
    fail: Option<usize>,
    partial: usize,
    kind: usize,
    tok: u64,
    inits: usize,
}
impl RNGState for FaultRng {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let no = self.requests;
        assert!(no < 100_000, "the RNG was asked 100000 times");
        self.requests += 1;
        let failing = self.fail == Some(no);
        let l = if failing { x.len() * self.partial / 4 } else { x.len() };
        for b in x[..l].iter_mut() {
            *b = self.script[self.pos % self.script.len()];
            self.pos += 1;
        }
        if failing {
            return Err(mk_err(self.kind, self.tok));
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {
        self.inits += 1;
    }
}

/// (result as text, requests, buffer a, buffer b)
fn call(rec: &mut Rec, op: u64, rng: &mut FaultRng, pk: &[u8], dirt: u8) -> (String, Vec<u8>, Vec<u8>) {
    rec.transitions += 1;
    let show = |r: std::thread::Result<Result<(), Box<dyn Error>>>| match r {
        Ok(Ok(())) => "Ok".to_string(),
        Ok(Err(e)) => print_of(&*e),
        Err(_) => "panic".to_string(),
    };
    if op == 0 {
        let mut a = [dirt; real::PK];
        let mut b = [dirt ^ 0x5a; real::SK];
        let r = catch_unwind(AssertUnwindSafe(|| crypto_kem_keypair(&mut a, &mut b, rng)));
        (show(r), a.to_vec(), b.to_vec())
    } else {
        let mut p = [0u8; real::PK];
        let l = p.len().min(pk.len());
        p[..l].copy_from_slice(&pk[..l]);
        let mut a = [dirt; real::CT];
        let mut b = [dirt ^ 0x5a; real::SS];
        let r = catch_unwind(AssertUnwindSafe(|| crypto_kem_enc(&mut a, &mut b, &p, rng)));
        (show(r), a.to_vec(), b.to_vec())
    }
}

fn fail_check(rec: &mut Rec, op: u64, at: usize, rng: &mut FaultRng, pk: &[u8], dirt: u8) -> Check {
    let before = rng.requests;
    rng.fail = Some(before + at);
    let want = print_of(&*mk_err(rng.kind, rng.tok));
    let (r, a, b) = call(rec, op, rng, pk, dirt);
    rng.fail = None;
    let ctx = format!("{} with RNG failing at request {} (kind {}, {}/4 of the buffer written)", ["key generation", "encapsulation"][op as usize], at, rng.kind, rng.partial);
    if rng.requests - before <= at {
        // the operation never reached the failing request (C08 says how many it makes)
        return if r == "Ok" { Ok(()) } else { vio(format!("{}: {} although no request failed", ctx, r), &[]) };
    }
    if r == "Ok" {
        return vio(format!("{}: reports success", ctx), &[("a", &a), ("b", &b)]);
    }
    if r != want {
        return vio(format!("{}: returns {:?} instead of {:?}", ctx, r, want), &[]);
    }
    if rng.requests - before != at + 1 {
        return vio(format!("{}: {} further requests after the failure", ctx, rng.requests - before - at - 1), &[]);
    }
    if op == 1 || at == 0 {
        if a.iter().any(|&x| x != dirt) || b.iter().any(|&x| x != dirt ^ 0x5a) {
            return vio(format!("{}: caller buffers were modified", ctx), &[("a", &a), ("b", &b)]);
        }
        rec.tag("untouched");
    } else {
        rec.tag("late failure");
    }
    Ok(())
}

pub fn c07(ex: &mut Explorer) {
    let par = ex.par;
    let key = &model_keys(par, 1)[0];
    let dirts = [0u8, 0xff, 0xa5, 0x5a];
    let ns = ex.by(8, 200);
    ex.space(
        "single",
        "operation and failing request (3) x error kind (7) x part of the buffer written (5) x previous buffer contents (4) x script",
        3 * 7 * 5 * 4 * ns,
        |i, rec| {
            let (op, at) = [(0, 0), (0, 1), (1, 0)][(i % 3) as usize];
            let j = i / 3;
            let kind = (j % KINDS as u64) as usize;
            let j = j / KINDS as u64;
            let partial = (j % 5) as usize;
            let j = j / 5;
            let dirt = dirts[(j % 4) as usize];
            let j = j / 4;
            let mut rng = FaultRng { script: if j == 0 { vec![0] } else { stream(j, par.seed_bytes() + 32) }, pos: 0, requests: 0, fail: None, partial, kind, tok: i, inits: 0 };
            rec.state(&[b"F", &[op as u8, at as u8, kind as u8, partial as u8, dirt], &j.to_le_bytes()]);
            fail_check(rec, op, at, &mut rng, &key.pk, dirt)
        },
    );
    // all sequences over {keypair ok, keypair fail at 0, at 1, enc ok, enc fail} on one RNG
    let depth = ex.by(4u32, 6);
    let base_k = {
        let mut r = FaultRng { script: stream(5, par.seed_bytes() + 32), pos: 0, requests: 0, fail: None, partial: 0, kind: 0, tok: 0, inits: 0 };
        let mut rec0 = Vec::new();
        let mut p = [0u8; real::PK];
        let mut s = [0u8; real::SK];
        let _ = catch_unwind(AssertUnwindSafe(|| crypto_kem_keypair(&mut p, &mut s, &mut r)));
        rec0.push((p.to_vec(), s.to_vec()));
        rec0.pop().unwrap()
    };
    let base_e = {
        let mut r = FaultRng { script: stream(6, par.seed_bytes()), pos: 0, requests: 0, fail: None, partial: 0, kind: 0, tok: 0, inits: 0 };
        let mut p = [0u8; real::PK];
        p.copy_from_slice(&base_k.0);
        let mut c = [0u8; real::CT];
        let mut k = [0u8; real::SS];
        let _ = catch_unwind(AssertUnwindSafe(|| crypto_kem_enc(&mut c, &mut k, &p, &mut r)));
        (c.to_vec(), k.to_vec())
    };
    ex.space("sequences", &format!("every sequence of {} operations, each succeeding or failing at one of its requests", depth), 5u64.pow(depth), |i, rec| {
        let mut j = i;
        let mut rng = FaultRng { script: vec![], pos: 0, requests: 0, fail: None, partial: (i % 5) as usize, kind: (i % KINDS as u64) as usize, tok: i, inits: 0 };
        rec.state(&[b"S", &i.to_le_bytes()]);
        for _ in 0..depth {
            let a = j % 5;
            j /= 5;
            rng.pos = 0;
            rng.script = if a < 3 { stream(5, par.seed_bytes() + 32) } else { stream(6, par.seed_bytes()) };
            match a {
                0 => {
                    let (r, p, s) = call(rec, 0, &mut rng, &[], 0x33);
                    if r != "Ok" || (p, s) != base_k {
                        return vio(format!("key generation after a failed operation differs ({})", r), &[]);
                    }
                }
                1 => fail_check(rec, 0, 0, &mut rng, &[], 0x33)?,
                2 => fail_check(rec, 0, 1, &mut rng, &[], 0x33)?,
                3 => {
                    let (r, c, k) = call(rec, 1, &mut rng, &base_k.0, 0x33);
                    if r != "Ok" || (c, k) != base_e {
                        return vio(format!("encapsulation after a failed operation differs ({})", r), &[]);
                    }
                }
                _ => fail_check(rec, 1, 0, &mut rng, &base_k.0, 0x33)?,
            }
        }
        Ok(())
    });
}

pub fn c08(ex: &mut Explorer) {
    let par = ex.par;
    let pat_k = vec![par.seed_bytes(), 32];
    let pat_e = vec![par.seed_bytes()];
    let keys = model_keys(par, 2);
    // request pattern on every key input
    for s in key_spaces(par, ex.tier) {
        let cut = if ex.quick() && s.total > 600 { 4 } else { 1 };
        ex.space(&format!("pattern.key.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let k = (s.gen)(i * cut);
            let (e, _, sk, rng) = rec.keypair(&k.seed, &k.prf);
            if matches!(e, End::Panic(_)) && pat_k.starts_with(&rng.requests) {
                rec.tag("no result");
                return Ok(());
            }
            if rng.requests != pat_k || rng.inits != 0 {
                return vio(format!("key generation requested {:?} bytes (re-initialisations: {}), prescribed is {:?}", &rng.requests[..rng.requests.len().min(8)], rng.inits, pat_k), &[("seed", &k.seed)]);
            }
            if e == End::Ok && sk[sk.len() - 32..] != k.prf[..] {
                return vio("rejection key is not the second block verbatim", &[("sk", &sk), ("prf", &k.prf)]);
            }
            rec.tag("pattern");
            Ok(())
        });
    }
    for s in rand_spaces(par, ex.tier) {
        let cut = if ex.quick() && s.total > 3000 { 4 } else { 1 };
        ex.space(&format!("pattern.enc.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            let (e, _, _, rng) = rec.enc(&keys[0].pk, &x);
            if matches!(e, End::Panic(_)) && pat_e.starts_with(&rng.requests) {
                rec.tag("no result");
                return Ok(());
            }
            if rng.requests != pat_e || rng.inits != 0 {
                return vio(format!("encapsulation requested {:?} bytes (re-initialisations: {}), prescribed is {:?}", &rng.requests[..rng.requests.len().min(8)], rng.inits, pat_e), &[("seed", &x)]);
            }
            rec.tag("pattern");
            Ok(())
        });
    }
    for s in pk_spaces(par, crate::explore::Tier::Quick) {
        let cut = if ex.quick() && s.total > 1000 { 8 } else { 1 };
        ex.space(&format!("pattern.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            let (e, _, _, rng) = rec.enc(&x.pk, &x.seed);
            if !(matches!(e, End::Panic(_)) && pat_e.starts_with(&rng.requests)) && (rng.requests != pat_e || rng.inits != 0) {
                return vio(format!("encapsulation requested {:?} bytes (re-initialisations: {}), prescribed is {:?}", &rng.requests[..rng.requests.len().min(8)], rng.inits, pat_e), &[("pk", &x.pk), ("seed", &x.seed)]);
            }
            Ok(())
        });
    }
    // influence of every seed bit
    let bits = 8 * par.seed_bytes() as u64;
    for j in 0..ex.by(2u64, 8) {
        let base = stream(300 + j, par.seed_bytes());
        let (br, bm) = par.sample_rm(&base);
        let r0 = std::sync::Mutex::new(None);
        ex.space(&format!("influence.enc.{}", j), "every single-bit change of an encapsulation seed: ciphertext and secret change exactly if the sampled (r,m) does; repeated call", bits, |i, rec| {
            let b0: (Vec<u8>, Vec<u8>) = {
                let mut g = r0.lock().unwrap();
                if g.is_none() {
                    let (_, c, k, _) = rec.enc(&keys[0].pk, &base);
                    *g = Some((c, k));
                }
                g.clone().unwrap()
            };
            let mut s = base.clone();
            s[(i / 8) as usize] ^= 1 << (i % 8);
            let (_, c, k, _) = rec.enc(&keys[0].pk, &s);
            let same = par.sample_rm(&s) == (br.clone(), bm.clone());
            rec.tag(if same { "bit irrelevant" } else { "bit used" });
            if !same && (c == b0.0 || k == b0.1) {
                return vio(format!("bit {} of the encapsulation seed has no influence", i), &[("seed", &s)]);
            }
            if same && (c, k) != b0 {
                return vio(format!("bit {} of the encapsulation seed has influence although the sampled polynomials are the same", i), &[("seed", &s)]);
            }
            Ok(())
        });
    }
    let base = stream(400, par.seed_bytes());
    let fg = par.sample_fg(&base);
    let step = ex.by(23u64, 3);
    let r0 = std::sync::Mutex::new(None);
    ex.space("influence.key", &format!("every {}th single-bit change of a key-generation seed: key pair changes exactly if (f,g) does", step), (bits + step - 1) / step, |i, rec| {
        let prf = prf_of(1);
        let b0: (Vec<u8>, Vec<u8>) = {
            let mut g = r0.lock().unwrap();
            if g.is_none() {
                let (_, p, s, _) = rec.keypair(&base, &prf);
                *g = Some((p, s));
            }
            g.clone().unwrap()
        };
        let i = i * step;
        let mut s = base.clone();
        s[(i / 8) as usize] ^= 1 << (i % 8);
        let (_, p, k, _) = rec.keypair(&s, &prf);
        let same = par.sample_fg(&s) == fg;
        rec.tag(if same { "bit irrelevant" } else { "bit used" });
        if !same && (p == b0.0 || k == b0.1) {
            return vio(format!("bit {} of the key-generation seed has no influence", i), &[("seed", &s)]);
        }
        if same && (p, k) != b0 {
            return vio(format!("bit {} of the key-generation seed has influence although the sampled polynomials are the same", i), &[("seed", &s)]);
        }
        Ok(())
    });
    ex.space("influence.prf", "every single-bit change of the second block: it appears in the secret key and changes nothing else", 256, |i, rec| {
        let mut prf = prf_of(2);
        let (_, p0, s0, _) = rec.keypair(&base, &prf);
        prf[(i / 8) as usize] ^= 1 << (i % 8);
        let (_, p, s, _) = rec.keypair(&base, &prf);
        let o = s.len() - 32;
        if p != p0 || s[..o] != s0[..o] || s[o..] != prf[..] {
            return vio("second RNG block is not (only) the rejection key", &[("prf", &prf), ("sk", &s)]);
        }
        Ok(())
    });
}
