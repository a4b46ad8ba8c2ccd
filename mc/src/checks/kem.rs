//! C01-C06 and the dynamic part of C15.
use super::small;
use crate::explore::{vio, Check, Explorer, Rec, Tier};
use crate::model::ntru::{Keys, Par};
use crate::real::{self, End};
use crate::spaces::*;

fn degenerate(par: &Par, seed: &[u8]) -> bool {
    let (f, g) = par.sample_fg(seed);
    f.iter().all(|&x| x == 0) || g.iter().all(|&x| x == 0)
}

fn agree(rec: &mut Rec, pk: &[u8], sk: &[u8], seed: &[u8]) -> Check {
    let (e, c, k, _) = rec.enc(pk, seed);
    if e != End::Ok {
        return vio(format!("encapsulation to a generated public key ended with {:?}", e), &[("pk", pk), ("seed", seed)]);
    }
    let (e, k2) = rec.dec(&c, sk);
    if e != End::Ok || k != k2 {
        return vio(format!("decapsulation ({:?}) returns a different secret than encapsulation", e), &[("pk", pk), ("sk", sk), ("seed", seed), ("ct", &c), ("k_enc", &k), ("k_dec", &k2)]);
    }
    rec.tag("agreed");
    Ok(())
}

/// seed of key generation that yields the given private polynomials
fn seed_for_fg(par: Par, key: &Keys) -> Vec<u8> {
    let b = if par.hrss { iid_seed(&par, &key.g) } else { par.fixed_seed_for(&key.g) };
    [iid_seed(&par, &key.f), b].concat()
}

pub fn c01(ex: &mut Explorer) {
    let par = ex.par;
    small::agreement(ex);
    for s in key_spaces(par, ex.tier) {
        if s.name.starts_with("prf") {
            continue;
        }
        ex.space(&format!("key.{}", s.name), &format!("generate, encapsulate (dense and extremal message), decapsulate; {}", s.rule), s.total, |i, rec| {
            let k = (s.gen)(i);
            if degenerate(&par, &k.seed) {
                rec.tag("degenerate");
                return Ok(());
            }
            let (e, pk, sk, _) = rec.keypair(&k.seed, &k.prf);
            if e != End::Ok {
                return vio(format!("key generation ended with {:?}", e), &[("seed", &k.seed)]);
            }
            agree(rec, &pk, &sk, &stream(i ^ 0xabc0_0000, par.seed_bytes()))?;
            let (f, g) = par.sample_fg(&k.seed);
            let key = Keys { f, g, f3: vec![], h: vec![], hinv: vec![], pk: vec![], sk: vec![] };
            let (r, m) = extremal_rm(par, &key, (i * 7 % par.n as u64) as usize, i % 2 == 0);
            agree(rec, &pk, &sk, &seed_for_rm(par, &r, &m))
        });
    }
    // a few keys produced by the implementation, against the whole randomness space
    let mut seeds: Vec<(Keys, Vec<u8>)> = vec![];
    for j in 0..ex.by(2, 6) {
        let k = if j == 0 { model_keys(par, 1).pop().unwrap() } else { extremal_key(par, j as u64 - 1) };
        let s = seed_for_fg(par, &k);
        seeds.push((k, s));
    }
    let mut pairs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for (_, s) in &seeds {
        let mut rng = real::ScriptRng::new([&s[..], &prf_of(1)[..]].concat());
        let (mut pk, mut sk) = (vec![], vec![]);
        let _ = real::keypair(&mut rng, &mut pk, &mut sk);
        pairs.push((pk, sk));
    }
    let np = pairs.len() as u64;
    for s in rand_spaces(par, ex.tier) {
        let (cut, kn) = if ex.quick() && s.total > 3000 { (5, 1) } else if s.total > 100_000 { (1, 1) } else { (1, np) };
        ex.space(&format!("msg.{}", s.name), &format!("{} generated key(s) x {} (every {}th)", kn, s.rule, cut), (s.total + cut - 1) / cut * kn, |i, rec| {
            let (pk, sk) = &pairs[(i % kn) as usize];
            agree(rec, pk, sk, &(s.gen)(i / kn * cut))
        });
    }
    // structured keys x structured messages
    let cs = corner_seeds(par);
    let ns = cs.len() as u64;
    let ck: Vec<Option<(Vec<u8>, Vec<u8>)>> = cs
        .iter()
        .map(|s| {
            if degenerate(&par, s) {
                return None;
            }
            let mut rng = real::ScriptRng::new([&s[..], &prf_of(1)[..]].concat());
            let (mut pk, mut sk) = (vec![], vec![]);
            let _ = real::keypair(&mut rng, &mut pk, &mut sk);
            Some((pk, sk))
        })
        .collect();
    let cut = ex.by(if par.hrss { 5 } else { 3 }, 1);
    ex.space("grid", &format!("structured (f, g) x structured (r, m): every pair of pairs (every {}th)", cut), (ns * ns + cut - 1) / cut, |i, rec| {
        let i = i * cut;
        match &ck[(i / ns) as usize] {
            Some((pk, sk)) => agree(rec, pk, sk, &cs[((i + i / ns) % ns) as usize]),
            None => Ok(rec.tag("degenerate")),
        }
    });
    ex.space("msg.extremal", "generated keys x messages maximising |coefficient k of rG + mf|, every k, both signs", np * 2 * par.n as u64, |i, rec| {
        let j = (i % np) as usize;
        let (r, m) = extremal_rm(par, &seeds[j].0, (i / np / 2) as usize, i / np % 2 == 0);
        agree(rec, &pairs[j].0, &pairs[j].1, &seed_for_rm(par, &r, &m))
    });
}

pub fn c02(ex: &mut Explorer) {
    let par = ex.par;
    for s in key_spaces(par, ex.tier) {
        ex.space(s.name, &s.rule, s.total, |i, rec| {
            let k = (s.gen)(i);
            if degenerate(&par, &k.seed) {
                rec.tag("degenerate");
                return Ok(());
            }
            let want = par.keypair(&k.seed, &k.prf).expect("Phi_n is irreducible mod 2 and 3");
            let (e, pk, sk, _) = rec.keypair(&k.seed, &k.prf);
            if e != End::Ok {
                return vio(format!("key generation ended with {:?}", e), &[("seed", &k.seed)]);
            }
            if pk != want.pk {
                return vio("public key differs from the specification", &[("seed", &k.seed), ("got", &pk), ("want", &want.pk)]);
            }
            if sk != want.sk {
                return vio("secret key differs from the specification", &[("seed", &k.seed), ("prf", &k.prf), ("got", &sk), ("want", &want.sk)]);
            }
            rec.tag("equal");
            Ok(())
        });
    }
}

fn enc_conforms(par: &Par, rec: &mut Rec, pk: &[u8], seed: &[u8]) -> Check {
    let (wc, wk) = par.enc(pk, seed);
    let (e, c, k, _) = rec.enc(pk, seed);
    if e != End::Ok {
        return vio(format!("encapsulation ended with {:?}", e), &[("pk", pk), ("seed", seed)]);
    }
    if c != wc {
        return vio("ciphertext differs from the specification", &[("pk", pk), ("seed", seed), ("got", &c), ("want", &wc)]);
    }
    if k[..] != wk[..] {
        return vio("shared secret differs from the specification", &[("pk", pk), ("seed", seed), ("got", &k), ("want", &wk)]);
    }
    rec.tag("equal");
    Ok(())
}

pub fn c03(ex: &mut Explorer) {
    let par = ex.par;
    let keys = model_keys(par, 3);
    for s in rand_spaces(par, ex.tier) {
        ex.space(&format!("seed.{}", s.name), &format!("honest public keys; {}", s.rule), s.total, |i, rec| enc_conforms(&par, rec, &keys[(i % 3) as usize].pk, &(s.gen)(i)));
    }
    for s in pk_spaces(par, ex.tier) {
        ex.space(s.name, &s.rule, s.total, |i, rec| {
            let x = (s.gen)(i);
            enc_conforms(&par, rec, &x.pk, &x.seed)
        });
    }
}

pub fn c04(ex: &mut Explorer) {
    let par = ex.par;
    small::accept_iff_honest(ex, false);
    for s in dec_spaces(par, ex.tier) {
        ex.space(s.name, &s.rule, s.total, |i, rec| {
            let x = (s.gen)(i);
            let w = par.dec(&x.ct, &x.sk);
            let (e, k) = rec.dec(&x.ct, &x.sk);
            let d = [("sk", &x.sk[..]), ("ct", &x.ct[..]), ("got", &k[..])];
            if w.accept() {
                rec.tag("accept");
                if e != End::Ok || k[..] != w.k[..] {
                    return vio(format!("honest ciphertext not decapsulated to SHA3-256(pack(r)||pack(m)) ({:?})", e), &d);
                }
                return Ok(());
            }
            rec.tag(if !w.pad_ok {
                "reject:padding"
            } else if !w.m_ok && !w.r_ok {
                "reject:m,r"
            } else if !w.m_ok {
                "reject:m"
            } else {
                "reject:r"
            });
            if e != End::Ok {
                rec.tag("no secret returned");
                return Ok(());
            }
            // not computable without the rejection key: it must change when that key does
            let mut sk2 = x.sk.clone();
            let o = sk2.len() - 32;
            sk2[o..].iter_mut().for_each(|b| *b ^= 0xff);
            let (e2, k2) = rec.dec(&x.ct, &sk2);
            if e2 == End::Ok && k2 == k {
                return vio("ciphertext that is no honest encryption yields a secret independent of the rejection key", &d);
            }
            Ok(())
        });
    }
}

pub fn c05(ex: &mut Explorer) {
    let par = ex.par;
    small::accept_iff_honest(ex, true);
    for s in dec_spaces(par, ex.tier) {
        if s.name.starts_with("honest.") {
            continue;
        }
        ex.space(s.name, &s.rule, s.total, |i, rec| {
            let x = (s.gen)(i);
            let w = par.dec(&x.ct, &x.sk);
            if w.accept() {
                rec.tag("honest");
                return Ok(());
            }
            rec.tag("reject");
            for _ in 0..2 {
                let (e, k) = rec.dec(&x.ct, &x.sk);
                if e != End::Ok || k[..] != w.reject_key[..] {
                    return vio(format!("invalid ciphertext does not give SHA3-256(rejection key||ciphertext) ({:?})", e), &[("sk", &x.sk), ("ct", &x.ct), ("got", &k), ("want", &w.reject_key)]);
                }
            }
            Ok(())
        });
    }
    // rejection-key bytes: every value of every byte
    let key = &model_keys(par, 1)[0];
    let (mut ct, _) = par.enc(&key.pk, &stream(1, par.seed_bytes()));
    ct[0] ^= 4;
    ex.space("prf.byte", "every value of every rejection-key byte, one rejected ciphertext", 32 * 256, |i, rec| {
        let mut sk = key.sk.clone();
        let o = sk.len() - 32;
        sk[o + (i / 256) as usize] = i as u8;
        let w = par.dec(&ct, &sk);
        let (e, k) = rec.dec(&ct, &sk);
        if w.accept() || e != End::Ok || k[..] != w.reject_key[..] {
            return vio(format!("invalid ciphertext does not give SHA3-256(rejection key||ciphertext) ({:?})", e), &[("sk", &sk), ("ct", &ct), ("got", &k), ("want", &w.reject_key)]);
        }
        Ok(())
    });
}

fn total(e: End, what: &str, data: &[(&str, &[u8])]) -> Check {
    match e {
        End::Ok => Ok(()),
        e => vio(format!("{} ended with {:?}", what, e), data),
    }
}

/// Totality; with --digests the outputs are recorded so that the driver can compare builds.
/// The largest spaces of the thorough tier are thinned (C01-C05 run them in full on the checked
/// build); MC_STRIDE=n explores every n-th element, MC_FEW=1 about a dozen elements of each space (for
/// the unoptimised build).
pub fn c06(ex: &mut Explorer) {
    let par = ex.par;
    let num = |n: &str, d: u64| std::env::var(n).ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(d);
    let (stride, few, thin) = (num("MC_STRIDE", 1), num("MC_FEW", 0) == 1, !ex.quick());
    let st = move |t: u64, f: u64| -> u64 {
        let half = if !thin { 1 } else if t > 100_000 { 6 } else if t > 20_000 { 3 } else { 1 };
        if few {
            (t / f / half).max(1) * half
        } else if t > 100 {
            stride * half
        } else {
            1
        }
    };
    let skip = |i: u64, k: u64, rec: &mut Rec| -> bool {
        if i % k != 0 {
            rec.tag("skipped");
        }
        i % k != 0
    };
    for s in key_spaces(par, ex.tier) {
        let k = st(s.total, if s.name == "historic" { 24 } else { ex.by(6, 60) });
        ex.space(&format!("key.{}", s.name), &s.rule, s.total, |i, rec| {
            if skip(i, k, rec) {
                return Ok(());
            }
            let x = (s.gen)(i);
            let (e, _, _, _) = rec.keypair(&x.seed, &x.prf);
            total(e, "key generation", &[("seed", &x.seed), ("prf", &x.prf)])
        });
    }
    let keys = model_keys(par, 2);
    for s in rand_spaces(par, ex.tier) {
        let k = st(s.total, ex.by(40, 400));
        ex.space(&format!("enc.{}", s.name), &s.rule, s.total, |i, rec| {
            if skip(i, k, rec) {
                return Ok(());
            }
            let x = (s.gen)(i);
            let (e, _, _, _) = rec.enc(&keys[(i % 2) as usize].pk, &x);
            total(e, "encapsulation", &[("pk", &keys[(i % 2) as usize].pk), ("seed", &x)])
        });
    }
    for s in pk_spaces(par, ex.tier) {
        let k = st(s.total, ex.by(40, 400));
        ex.space(&format!("enc.{}", s.name), &s.rule, s.total, |i, rec| {
            if skip(i, k, rec) {
                return Ok(());
            }
            let x = (s.gen)(i);
            let (e, _, _, _) = rec.enc(&x.pk, &x.seed);
            total(e, "encapsulation", &[("pk", &x.pk), ("seed", &x.seed)])
        });
    }
    for s in dec_spaces(par, ex.tier).into_iter().chain(wild_dec_spaces(par, ex.tier)) {
        let k = st(s.total, ex.by(30, 300));
        ex.space(&format!("dec.{}", s.name), &s.rule, s.total, |i, rec| {
            if skip(i, k, rec) {
                return Ok(());
            }
            let x = (s.gen)(i);
            let (e, _) = rec.dec(&x.ct, &x.sk);
            total(e, "decapsulation", &[("sk", &x.sk), ("ct", &x.ct)])
        });
    }
}

/// published table
pub fn c15(ex: &mut Explorer) {
    let par = ex.par;
    let want = match par.n {
        509 => (699, 935, 699, 32, "ntruhps2048509"),
        677 => (930, 1234, 930, 32, "ntruhps2048677"),
        821 => (1230, 1590, 1230, 32, "ntruhps4096821"),
        _ => (1138, 1450, 1138, 32, "ntruhrss701"),
    };
    let got = (real::PK, real::SK, real::CT, real::SS, ntrust_native::CRYPTO_ALGNAME);
    ex.space("table", "name and sizes of this feature selection", 1, |_, rec| {
        rec.state(&[format!("{:?}", got).as_bytes()]);
        if got != want {
            return vio(format!("selection gives {:?}, published is {:?}", got, want), &[]);
        }
        Ok(())
    });
    let j = if ex.tier == Tier::Quick { 64 } else { 1024 };
    ex.space("keys", "keys of the selected parameter set: generate, encapsulate, decapsulate, against the model of that set", j, |i, rec| {
        let (seed, prf) = (stream(i, par.seed_bytes()), prf_of(i));
        let w = par.keypair(&seed, &prf).unwrap();
        let (e, pk, sk, _) = rec.keypair(&seed, &prf);
        if e != End::Ok || pk != w.pk || sk != w.sk {
            return vio(format!("key pair ({:?}) is not one of the selected parameter set", e), &[("seed", &seed), ("pk", &pk), ("want", &w.pk)]);
        }
        agree(rec, &pk, &sk, &seed)
    });
}
