//! C11 (shape of sampled secrets), C12 (key equations), C13 (encodings).
use crate::explore::{vio, Check, Explorer, Rec};
use crate::model::ntru::{Par, P};
use crate::real::End;
use crate::spaces::*;

struct Parts {
    f: Vec<u8>,
    f3: Vec<u8>,
    h: P,
    hinv: P,
}

fn parts(par: &Par, pk: &[u8], sk: &[u8]) -> Parts {
    let t = par.tri_bytes();
    Parts { f: par.unpack_3(&sk[..t]), f3: par.unpack_3(&sk[t..2 * t]), h: par.unpack_sum_zero(pk), hinv: par.unpack_q(&sk[2 * t..2 * t + par.q_bytes()]) }
}

fn sizes_ok(par: &Par, pk: &[u8], sk: &[u8]) -> bool {
    pk.len() == par.q_bytes() && sk.len() == par.sk_bytes()
}

/// g recovered from f*h = 3g (or 3(x-1)g) mod (q, Phi); None if it is not ternary
fn recover_g(par: &Par, f: &[u8], h: &[u16]) -> Option<Vec<u8>> {
    let fh = par.mod_phi(&par.mul(&par.trits_to_q(f), h));
    let third = crate::model::ntru::inv16(3);
    let gg: P = fh.iter().map(|x| x.wrapping_mul(third)).collect();
    if !par.hrss {
        return par.r_trits(&par.mod_q(&gg));
    }
    // (x-1) g mod Phi: representative with sum zero, then divide: d_i = g_{i-1} - g_i, g_{n-1} = 0
    let d = par.mod_q(&par.sum_zero(&gg));
    let mut g = vec![0u16; par.n];
    let mut prev = 0u16;
    for i in 0..par.n {
        prev = prev.wrapping_sub(d[i]);
        g[i] = prev & par.mask();
    }
    if g[par.n - 1] != 0 {
        return None;
    }
    par.r_trits(&g)
}

pub fn c11(ex: &mut Explorer) {
    let par = ex.par;
    let n = par.n;
    let w = par.weight() / 2;
    let count = move |v: &[u8]| (v.iter().filter(|&&x| x == 1).count(), v.iter().filter(|&&x| x == 2).count());
    for s in key_spaces(par, ex.tier) {
        if s.name.starts_with("prf") {
            continue;
        }
        ex.space(&format!("key.{}", s.name), &format!("f from the secret key, g recovered from f*h; {}", s.rule), s.total, |i, rec| {
            let k = (s.gen)(i);
            let (e, pk, sk, _) = rec.keypair(&k.seed, &k.prf);
            if e != End::Ok || !sizes_ok(&par, &pk, &sk) {
                rec.tag("no result");
                return Ok(());
            }
            let p = parts(&par, &pk, &sk);
            let data = [("seed", &k.seed[..]), ("pk", &pk[..]), ("sk", &sk[..])];
            let last = 3u8.pow(((par.deg() - 1) % 5 + 1) as u32);
            let t = par.tri_bytes();
            if sk[..t - 1].iter().any(|&b| b >= 243) || (last != 243 && sk[t - 1] >= last) {
                return vio("f is not a ternary polynomial with zero top coefficient", &data);
            }
            if p.f.iter().all(|&x| x == 0) {
                rec.tag("f=0");
                return Ok(());
            }
            if par.hrss && par.correlation(&p.f) < 0 {
                return vio(format!("f has negative correlation {}", par.correlation(&p.f)), &data);
            }
            let (_, wg) = par.sample_fg(&k.seed);
            if wg.iter().all(|&x| x == 0) {
                rec.tag("g=0");
                return Ok(());
            }
            let g = match recover_g(&par, &p.f, &p.h) {
                Some(g) => g,
                None => return vio("f*h is not 3g with ternary g of the prescribed form", &data),
            };
            if par.hrss {
                if par.correlation(&g) < 0 {
                    return vio(format!("g has negative correlation {}", par.correlation(&g)), &data);
                }
            } else {
                // mod Phi the class of a fixed-type g determines it (weight below n/2 or top zero)
                if count(&g) != (w, w) {
                    return vio(format!("g has {:?} coefficients +1/-1 instead of {}", count(&g), w), &data);
                }
                if g != wg {
                    return vio("g is not the arrangement obtained by sorting the random keys", &data);
                }
            }
            rec.tag("shape ok");
            Ok(())
        });
    }
    // encapsulation to a public key that keeps r and m apart: h = 64 (1 - x^(n-1))
    let mut h = vec![0u16; n];
    h[0] = 64;
    h[n - 1] = 0u16.wrapping_sub(64) & par.mask();
    let pk = par.pack_q(&h);
    for s in rand_spaces(par, ex.tier) {
        ex.space(&format!("msg.{}", s.name), &format!("r and m read off the ciphertext under h=64(1-x^(n-1)); {}", s.rule), s.total, |i, rec| {
            let seed = (s.gen)(i);
            let (e, c, _, _) = rec.enc(&pk, &seed);
            if e != End::Ok || c.len() != par.q_bytes() {
                rec.tag("no result");
                return Ok(());
            }
            let data = [("seed", &seed[..]), ("ct", &c[..])];
            let c = par.unpack_q(&c);
            // c_i = 64 (r_i - r_{i+1}) + lift(m)_i for i < n-1
            let mut lm = vec![0i32; n];
            let mut d = vec![0i32; n];
            for j in 0..par.deg() {
                let x = par.centered(c[j]);
                let m = (x + 32).rem_euclid(64) - 32;
                lm[j] = m;
                d[j] = (x - m) / 64;
            }
            let mut r = vec![0i32; n];
            for j in (0..par.deg()).rev() {
                r[j] = d[j] + r[j + 1];
            }
            if r.iter().any(|&x| !(-1..=1).contains(&x)) {
                return vio("r is not a ternary polynomial with zero top coefficient", &data);
            }
            if !par.hrss {
                if lm.iter().any(|&x| !(-1..=1).contains(&x)) {
                    return vio("m is not ternary", &data);
                }
                let m: Vec<u8> = lm.iter().map(|&x| x.rem_euclid(3) as u8).collect();
                if count(&m) != (w, w) {
                    return vio(format!("m has {:?} coefficients +1/-1 instead of {}", count(&m), w), &data);
                }
                if m != par.sample_rm(&seed).1 {
                    return vio("m is not the arrangement obtained by sorting the random keys", &data);
                }
            }
            rec.tag("shape ok");
            Ok(())
        });
    }
}

pub fn c12(ex: &mut Explorer) {
    let par = ex.par;
    for s in key_spaces(par, ex.tier) {
        if s.name.starts_with("prf") {
            continue;
        }
        ex.space(s.name, &s.rule, s.total, |i, rec| {
            let k = (s.gen)(i);
            let (e, pk, sk, _) = rec.keypair(&k.seed, &k.prf);
            let (wf, wg) = par.sample_fg(&k.seed);
            if wf.iter().all(|&x| x == 0) || wg.iter().all(|&x| x == 0) {
                rec.tag("degenerate");
                return Ok(());
            }
            if e != End::Ok || !sizes_ok(&par, &pk, &sk) {
                rec.tag("no result");
                return vio(format!("key generation ended with {:?}", e), &[("seed", &k.seed)]);
            }
            let data = [("seed", &k.seed[..]), ("pk", &pk[..]), ("sk", &sk[..])];
            let p = parts(&par, &pk, &sk);
            if p.h.iter().fold(0u16, |a, x| a.wrapping_add(*x)) & par.mask() != 0 {
                return vio("h(1) is not 0", &data);
            }
            let one3 = par.mul3(&p.f, &p.f3);
            if one3[0] != 1 || one3[1..].iter().any(|&x| x != 0) {
                return vio("f * f3 is not 1 mod (3, Phi)", &data);
            }
            let one = par.mod_q(&par.mod_phi(&par.mul(&p.h, &p.hinv)));
            if one[0] != 1 || one[1..].iter().any(|&x| x != 0) {
                return vio("h * hinv is not 1 mod (q, Phi)", &data);
            }
            match recover_g(&par, &p.f, &p.h) {
                None => return vio("f * h is not 3g with small g mod (q, Phi)", &data),
                Some(g) => {
                    if g.iter().all(|&x| x == 0) {
                        return vio("f * h = 0", &data);
                    }
                }
            }
            rec.tag("equations hold");
            Ok(())
        });
    }
}

fn canonical_key(par: &Par, rec: &mut Rec, k: &KeyIn) -> Check {
    let (e, pk, sk, _) = rec.keypair(&k.seed, &k.prf);
    let data = [("seed", &k.seed[..]), ("pk", &pk[..]), ("sk", &sk[..])];
    if pk.len() != par.q_bytes() || sk.len() != par.sk_bytes() {
        return vio("wrong length of public or secret key", &data);
    }
    if e != End::Ok {
        rec.tag("no result");
        return Ok(());
    }
    let t = par.tri_bytes();
    let last = 3u32.pow(((par.deg() - 1) % 5 + 1) as u32);
    for o in [0, t] {
        if sk[o..o + t - 1].iter().any(|&b| b >= 243) || sk[o + t - 1] as u32 >= last {
            return vio("ternary bytes of the secret key are not canonical", &data);
        }
    }
    if par.padding(&pk) != 0 {
        return vio("non-zero padding bits in the public key", &data);
    }
    if par.padding(&sk[2 * t..2 * t + par.q_bytes()]) != 0 {
        return vio("non-zero padding bits in the secret key", &data);
    }
    rec.tag("canonical key");
    Ok(())
}

pub fn c13(ex: &mut Explorer) {
    let par = ex.par;
    let n = par.n;
    for s in key_spaces(par, ex.tier) {
        if s.name.starts_with("prf") {
            continue;
        }
        let cut = if ex.quick() { 2 } else { 1 };
        ex.space(&format!("key.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| canonical_key(&par, rec, &(s.gen)(i * cut)));
    }
    // the public key as encapsulation reads it: ct(pk) - ct(0) = r*h
    for s in pk_spaces(par, ex.tier) {
        ex.space(&format!("read.{}", s.name), &format!("ciphertext minus the ciphertext of the same seed under h=0 equals r*h; {}", s.rule), s.total, |i, rec| {
            let x = (s.gen)(i);
            let (e, c, _, _) = rec.enc(&x.pk, &x.seed);
            let (e0, c0, _, _) = rec.enc(&vec![0; par.q_bytes()], &x.seed);
            if c.len() != par.q_bytes() {
                return vio("wrong ciphertext length", &[("ct", &c)]);
            }
            if e != End::Ok || e0 != End::Ok {
                rec.tag("no result");
                return Ok(());
            }
            let data = [("pk", &x.pk[..]), ("seed", &x.seed[..]), ("ct", &c[..]), ("ct0", &c0[..])];
            if par.padding(&c) != 0 || par.padding(&c0) != 0 {
                return vio("non-zero padding bits in the ciphertext", &data);
            }
            let (r, _) = par.sample_rm(&x.seed);
            let rh = par.mul(&par.trits_to_q(&r), &par.unpack_sum_zero(&x.pk));
            let (a, b) = (par.unpack_q(&c), par.unpack_q(&c0));
            for j in 0..par.deg() {
                if a[j].wrapping_sub(b[j]).wrapping_sub(rh[j]) & par.mask() != 0 {
                    return vio(format!("coefficient {} of the public key or ciphertext is not carried exactly", j), &data);
                }
            }
            rec.tag("read exactly");
            Ok(())
        });
    }
    for s in rand_spaces(par, ex.tier) {
        let cut = if ex.quick() && s.total > 2000 { 5 } else { 1 };
        let key = &model_keys(par, 1)[0];
        ex.space(&format!("ct.{}", s.name), &format!("canonical ciphertexts; {} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let seed = (s.gen)(i * cut);
            let (e, c, _, _) = rec.enc(&key.pk, &seed);
            if e == End::Ok && (c.len() != par.q_bytes() || par.padding(&c) != 0) {
                return vio("ciphertext is not canonical", &[("seed", &seed), ("ct", &c)]);
            }
            Ok(())
        });
    }
    // the ciphertext as decapsulation reads it: with f = f3 = 1 and hinv = 0 the accepted secret
    // is SHA3(0 || m) where m_i is (centred c_i - centred c_(n-1)) mod 3
    let mut one = vec![0u8; n];
    one[0] = 1;
    let sk = [par.pack_3(&one), par.pack_3(&one), vec![0u8; par.q_bytes()], vec![9u8; 32]].concat();
    let half = par.q() as usize / 2;
    let q = par.q() as usize;
    let reps = ex.by(1u64, 3);
    ex.space("read.ct", "q x k ciphertexts in which every coefficient takes every value (of each residue class mod 3) in turn, top coefficient included", q as u64 * reps, |i, rec| {
        let a = arrangement(&par, (i as usize * 7) % par.deg());
        let top = par.centered((i % q as u64) as u16);
        // coefficient p: the value of the class wanted for m_p, stepping through all of them
        let mut c = vec![0u16; n];
        let mut sum = 0u16;
        for p in 0..par.deg() {
            let cls = (a[p] as i32 + top).rem_euclid(3);
            let mut x = ((i as usize + p * 11 + (i as usize / q) * 997) % q) as i32 - half as i32;
            while x.rem_euclid(3) != cls {
                x += 1;
                if x >= half as i32 {
                    x = -(half as i32);
                }
            }
            c[p] = x as u16 & par.mask();
            sum = sum.wrapping_add(c[p]);
        }
        // repair the top coefficient by moving one coefficient in steps of three
        let want = 0u16.wrapping_sub(top as u16);
        let mut j = i as usize % par.deg();
        let mut tries = 0;
        while (sum ^ want) & par.mask() != 0 && tries < 40 * par.deg() {
            let diff = par.centered(want.wrapping_sub(sum));
            let step = if diff.abs() >= 3 { (diff / 3).clamp(-200, 200) * 3 } else if diff > 0 { -3 * (half as i32 / 5) } else { 3 * (half as i32 / 5) };
            let x = par.centered(c[j]) + step;
            if x >= -(half as i32) && x < half as i32 {
                sum = sum.wrapping_sub(c[j]);
                c[j] = x as u16 & par.mask();
                sum = sum.wrapping_add(c[j]);
            }
            j = (j + 1) % par.deg();
            tries += 1;
        }
        let ct = par.pack_q(&c);
        let w = par.dec(&ct, &sk);
        let (e, k) = rec.dec(&ct, &sk);
        if e != End::Ok {
            rec.tag("no result");
            return Ok(());
        }
        rec.tag(if w.accept() { "accepted" } else { "rejected" });
        if w.accept() && k[..] != w.k[..] {
            return vio("a coefficient of the ciphertext is not read exactly", &[("sk", &sk), ("ct", &ct), ("got", &k), ("want", &w.k)]);
        }
        Ok(())
    });
    let keys = model_keys(par, 4);
    ex.space("read.ct.honest", "dense honest ciphertexts under honest keys", ex.by(2000, 50_000), |i, rec| {
        let key = &keys[(i % 4) as usize];
        let (ct, wk) = par.enc(&key.pk, &stream(i + 31_000, par.seed_bytes()));
        let (e, k) = rec.dec(&ct, &key.sk);
        if e == End::Ok && k[..] != wk[..] {
            return vio("an honest ciphertext is not read exactly", &[("sk", &key.sk), ("ct", &ct), ("got", &k), ("want", &wk)]);
        }
        Ok(())
    });
}
