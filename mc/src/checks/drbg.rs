//! C09: the bundled generator against the model of the NIST DRBG.
use crate::explore::{vio, Check, Explorer, Rec};
use crate::model::drbg::Drbg;
use crate::spaces::stream;
use ntrust_native::{AesState, RNGState};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn real_of(d: &Drbg) -> AesState {
    let mut s = AesState::new();
    s.key = d.key;
    s.v = d.v;
    s.reseed_counter = d.reseed_counter;
    s
}

fn same(rec: &mut Rec, a: &AesState, d: &Drbg, what: &str) -> Check {
    rec.state(&[b"R", &d.key, &d.v, &d.reseed_counter.to_le_bytes()]);
    if a.key != d.key || a.v != d.v {
        return vio(format!("{}: generator state differs from the NIST DRBG", what), &[("key", &a.key), ("v", &a.v), ("want_key", &d.key), ("want_v", &d.v)]);
    }
    if a.reseed_counter != d.reseed_counter {
        return vio(format!("{}: reseed counter is {} instead of {}", what, a.reseed_counter, d.reseed_counter), &[]);
    }
    Ok(())
}

fn request(rec: &mut Rec, a: &mut AesState, d: &mut Drbg, len: usize, dirt: u8, what: &str) -> Check {
    rec.transitions += 1;
    let mut buf = vec![dirt; len];
    let r = catch_unwind(AssertUnwindSafe(|| a.randombytes(&mut buf).map_err(|e| e.to_string())));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return vio(format!("{}: request of {} bytes fails: {}", what, len, e), &[]),
        Err(_) => return vio(format!("{}: request of {} bytes panics (v before: see data)", what, len), &[("v", &d.v), ("key", &d.key)]),
    }
    let want = d.bytes(len);
    rec.outcome(&[&buf]);
    if buf != want {
        let p = buf.iter().zip(&want).position(|(x, y)| x != y).unwrap();
        return vio(format!("{}: request of {} bytes: byte {} differs from the NIST DRBG", what, len, p), &[("got", &buf[p..(p + 32).min(len)]), ("want", &want[p..(p + 32).min(len)])]);
    }
    same(rec, a, d, what)
}

fn init(rec: &mut Rec, a: &mut AesState, d: &mut Drbg, e: &[u8; 48], what: &str) -> Check {
    rec.transitions += 1;
    if catch_unwind(AssertUnwindSafe(|| a.randombytes_init(*e))).is_err() {
        return vio(format!("{}: initialisation panics", what), &[("entropy", e)]);
    }
    d.init(e);
    same(rec, a, d, what)
}

fn entropy(j: u64) -> [u8; 48] {
    let mut e = [0u8; 48];
    e.copy_from_slice(&stream(j ^ 0x9999, 48));
    e
}

pub fn c09(ex: &mut Explorer) {
    // the generator is the same source in every parameter set: one gets the full space
    let full = ex.par.n == 509 || !ex.quick();
    // every request length
    let lens = if full { 2100u64 } else { 300 };
    ex.space("length", "fresh generator, every request length, then a second request", lens, |i, rec| {
        let (mut a, mut d) = (AesState::new(), Drbg::zero());
        same(rec, &a, &d, "new")?;
        init(rec, &mut a, &mut d, &entropy(i % 3), "length")?;
        request(rec, &mut a, &mut d, i as usize, 0xee, "length")?;
        request(rec, &mut a, &mut d, 33, 0, "length, second request")
    });
    let big: Vec<usize> = {
        let mut v = vec![];
        let top = if full { ex.by(21, 24) } else { 17 };
        for p in 11..top {
            for e in [-17i64, -16, -15, -1, 0, 1, 15, 16, 17] {
                v.push(((1i64 << p) + e) as usize);
            }
        }
        v
    };
    ex.space("length.big", "powers of two and their neighbours as request length", big.len() as u64, |i, rec| {
        let (mut a, mut d) = (AesState::new(), Drbg::zero());
        init(rec, &mut a, &mut d, &entropy(i), "big")?;
        request(rec, &mut a, &mut d, big[i as usize], 1, "big")?;
        request(rec, &mut a, &mut d, 48, 0, "big, second request")
    });
    // counter carries: low j bytes 0xff (minus o), the rest a pattern
    let offs = 9u64;
    let ls = [0usize, 1, 15, 16, 17, 32, 48, 64, 100, 256];
    ex.space(
        "carry",
        "counter with the low j bytes 0xff minus offset o: j=0..16, o=0..8, rest {00,7f,80,fe,ff}, request length (10), three requests",
        17 * offs * 5 * 10,
        |i, rec| {
            let j = (i % 17) as usize;
            let o = i / 17 % offs;
            let rest = [0u8, 0x7f, 0x80, 0xfe, 0xff][(i / 17 / offs % 5) as usize];
            let len = ls[(i / 17 / offs / 5) as usize];
            let mut v = [rest; 16];
            v[16 - j..].iter_mut().for_each(|x| *x = 0xff);
            let v = u128::from_be_bytes(v).wrapping_sub(o as u128).to_be_bytes();
            let mut k = [0u8; 32];
            k.copy_from_slice(&stream(i % 4, 32));
            let mut d = Drbg { key: k, v, reseed_counter: 5 };
            let mut a = real_of(&d);
            request(rec, &mut a, &mut d, len, 0x77, "carry")?;
            request(rec, &mut a, &mut d, 16, 0x77, "carry, second request")?;
            request(rec, &mut a, &mut d, len, 0x77, "carry, third request")
        },
    );
    ex.space("carry.inside", "low j counter bytes 0xff minus o, o up to 70 blocks inside one long request", if full { 17 * 70 } else { 17 * 20 }, |i, rec| {
        let j = (i % 17) as u32;
        let o = (i / 17) as u128;
        let base = if j == 16 { u128::MAX } else { (0x0123_4567_89ab_cdef_1032_5476_98ba_dcfeu128 >> (8 * j) << (8 * j)) | ((1u128 << (8 * j)) - 1) };
        let mut d = Drbg { key: [j as u8; 32], v: base.wrapping_sub(o).to_be_bytes(), reseed_counter: 1 };
        let mut a = real_of(&d);
        request(rec, &mut a, &mut d, 16 * 72 + 5, 0x77, "carry inside a request")
    });
    ex.space("counter.bits", "counter with a single bit set or cleared, every bit; every single key bit", 256 + 256, |i, rec| {
        let mut d = Drbg { key: [0; 32], v: [0; 16], reseed_counter: 1 };
        if i < 256 {
            let b = (i / 2) as u32;
            let x = if i % 2 == 0 { 1u128 << b } else { !(1u128 << b) };
            d.v = x.to_be_bytes();
        } else {
            d.key[((i - 256) / 8) as usize] = 1 << (i % 8);
        }
        let mut a = real_of(&d);
        request(rec, &mut a, &mut d, 40, 0, "counter/key bits")?;
        request(rec, &mut a, &mut d, 40, 0, "counter/key bits")
    });
    let mut rc: Vec<i32> = vec![i32::MIN, i32::MIN + 1, i32::MAX - 2, i32::MAX - 1, i32::MAX];
    rc.extend(-3..if full { 3000 } else { 300 });
    for b in 8..31 {
        for e in -3..=2 {
            rc.extend([(1 << b) + e, -(1 << b) - e]);
        }
        rc.extend([10i32.pow(b % 10) - 1, 10i32.pow(b % 10)]);
    }
    ex.space("reseed", "request counter small, and around powers of two and ten x request / initialisation", 2 * rc.len() as u64, |i, rec| {
        let mut d = Drbg { key: [3; 32], v: [4; 16], reseed_counter: rc[(i / 2) as usize] };
        let mut a = real_of(&d);
        if i % 2 == 1 {
            init(rec, &mut a, &mut d, &entropy(1), "reseed")?;
        }
        for _ in 0..4 {
            request(rec, &mut a, &mut d, 20, 0, "reseed")?;
        }
        Ok(())
    });
    ex.space("entropy", "initialisation with every single entropy bit set / cleared, with constant bytes", 2 * 384 + 256, |i, rec| {
        let mut e = [0u8; 48];
        if i < 768 {
            e = [if i % 2 == 0 { 0 } else { 0xff }; 48];
            e[(i / 16) as usize] ^= 1 << (i / 2 % 8);
        } else {
            e = e.map(|_| (i - 768) as u8);
        }
        let (mut a, mut d) = (AesState::new(), Drbg::zero());
        init(rec, &mut a, &mut d, &e, "entropy")?;
        request(rec, &mut a, &mut d, 64, 0, "entropy")
    });
    // histories
    let acts = 9u64;
    let depth = if full { ex.by(5u32, 6) } else { 3 };
    ex.space(
        "history",
        &format!("every history of {} actions over init(e1|e2|zero), request(0|1|16|17|100), clone; both copies continue", depth),
        acts.pow(depth),
        |i, rec| {
            let (mut a, mut d) = (AesState::default(), Drbg::zero());
            let mut other: Option<(AesState, Drbg)> = None;
            let mut j = i;
            for _ in 0..depth {
                let x = j % acts;
                j /= acts;
                match x {
                    0 | 1 => init(rec, &mut a, &mut d, &entropy(x), "history")?,
                    2 => init(rec, &mut a, &mut d, &[0; 48], "history")?,
                    3..=7 => request(rec, &mut a, &mut d, [0, 1, 16, 17, 100][(x - 3) as usize], 0x11, "history")?,
                    _ => {
                        let c = a.clone();
                        if c != a {
                            return vio("a clone is not equal to its original", &[]);
                        }
                        // continue with the clone, or swap back to the earlier copy
                        let nd = d.clone();
                        if let Some((oa, od)) = other.take() {
                            other = Some((a, d));
                            a = oa;
                            d = od;
                            drop((c, nd));
                        } else {
                            other = Some((a, d));
                            a = c;
                            d = nd;
                        }
                    }
                }
            }
            if let Some((mut oa, mut od)) = other {
                same(rec, &oa, &od, "history, other copy")?;
                request(rec, &mut oa, &mut od, 40, 0, "history, other copy")?;
            }
            request(rec, &mut a, &mut d, 40, 0, "history, end")
        },
    );
    let reps = if full { ex.by(70_000u64, 500_000) } else { 2_000 };
    ex.space("long", "long request histories on one generator (lengths 0, 1, 16, 31 in turn)", 4, |i, rec| {
        let (mut a, mut d) = (AesState::new(), Drbg::zero());
        init(rec, &mut a, &mut d, &entropy(40 + i), "long")?;
        for j in 0..reps {
            rec.beat();
            request(rec, &mut a, &mut d, [0, 1, 16, 31][((i + j) % 4) as usize], 9, "long")?;
        }
        Ok(())
    });
    ex.space("kem.lengths", "the requests the KEM makes: keypair and encapsulation seeds of all parameter sets in turn", 64, |i, rec| {
        let (mut a, mut d) = (AesState::new(), Drbg::zero());
        init(rec, &mut a, &mut d, &entropy(i), "kem")?;
        for l in [2413, 32, 2413, 3211, 32, 3211, 3895, 32, 3895, 1400, 32, 1400] {
            request(rec, &mut a, &mut d, l, 9, "kem")?;
        }
        Ok(())
    });
}
