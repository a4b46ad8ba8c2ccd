//! C20: decapsulation with any secret-key string, judged against the model.
use crate::explore::{vio, Check, Explorer, Rec};
use crate::model::ntru::*;
use crate::real::End;
use crate::spaces::*;

fn judge(par: &Par, rec: &mut Rec, ct: &[u8], sk: &[u8]) -> Check {
    let w = par.dec(ct, sk);
    let (e, k) = rec.dec(ct, sk);
    rec.tag(if w.accept() {
        "accept"
    } else if !w.pad_ok {
        "reject:padding"
    } else if !w.m_ok {
        "reject:m"
    } else {
        "reject:r"
    });
    if e != End::Ok || k[..] != w.k[..] {
        return vio(format!("decapsulation differs from the specified algorithm, which {} here ({:?})", if w.accept() { "accepts" } else { "rejects" }, e), &[("sk", sk), ("ct", ct), ("got", &k), ("want", &w.k)]);
    }
    Ok(())
}

/// ciphertext whose coefficients are u modulo 3, small, with sum zero
fn small_ct(par: &Par, u: &[u8]) -> Vec<u8> {
    let mut c: Vec<i32> = (0..par.n).map(|i| if i < par.deg() { [0, 1, -1][u[i] as usize] } else { 0 }).collect();
    let s: i32 = c.iter().sum();
    let q = par.q() as i32;
    let t = [0, q, -q].into_iter().find(|t| (t - s) % 3 == 0).unwrap();
    let (mut left, step, mut j) = ((t - s) / 3, (t - s).signum(), 0);
    while left != 0 {
        c[j] += 3 * step;
        left -= step;
        j = (j + 1) % par.deg();
    }
    par.pack_q(&c.iter().map(|&x| x as u16 & par.mask()).collect::<Vec<_>>())
}

/// a key of the given parts and a ciphertext from which it reads a message of the right shape, if there is one
fn readable(par: &Par, fb: &[u8], f3b: &[u8], hinv: &[u8], j: usize) -> (Vec<u8>, Vec<u8>) {
    let (f, f3) = (par.unpack_3(fb), par.unpack_3(f3b));
    let m = arrangement(par, j % par.deg());
    let u = match par.inv3(&par.phi3(&par.mul3(&f, &f3))) {
        Some(x) => par.phi3(&par.mul3(&m, &x)),
        None => m,
    };
    (small_ct(par, &u), [fb, f3b, hinv, &[7u8; 32]].concat())
}

pub fn c20(ex: &mut Explorer) {
    let par = ex.par;
    let t = par.tri_bytes();
    let n = par.n;
    let zero_h = vec![0u8; par.q_bytes()];
    let one = {
        let mut x = vec![0u8; t];
        x[0] = 1;
        x
    };
    // ternary bytes: one byte of f or f3 takes every value, the rest is 0
    let values: Vec<u8> = (0..=255).collect();
    let nv = values.len() as u64;
    ex.space("byte.position", "f = 1 and f3 one byte (or the reverse), h^-1 = 0: every position x all 256 values, ciphertext that reads as a well-shaped message", 2 * nv * t as u64, |i, rec| {
        let (side, v, p) = (i % 2, values[(i / 2 % nv) as usize], (i / 2 / nv) as usize);
        let mut b = vec![0u8; t];
        b[p] = v;
        let (ct, sk) = if side == 0 { readable(&par, &one, &b, &zero_h, p) } else { readable(&par, &b, &one, &zero_h, p) };
        judge(&par, rec, &ct, &sk)
    });
    let second = ex.by(24u64, 256);
    ex.space("byte.pair", "f and f3 one byte each: all 256 values x 24 (256) values, positions vary", 256 * second, |i, rec| {
        let v = i / 256;
        let (mut a, mut b) = (vec![0u8; t], vec![0u8; t]);
        a[(i as usize * 5) % t] = i as u8;
        b[(i as usize * 3) % t] = if second == 24 { (v * 11 + 2) as u8 } else { v as u8 };
        let (ct, sk) = readable(&par, &a, &b, &zero_h, i as usize);
        judge(&par, rec, &ct, &sk)
    });
    ex.space("byte.dense", "all bytes of f3 equal (or counting up from) a value, f = 1 or a monomial: 256 values x 2 x 3", 256 * 6, |i, rec| {
        let (v, k) = ((i / 6) as u8, i % 6);
        let b: Vec<u8> = (0..t).map(|p| if k % 2 == 0 { v } else { v.wrapping_add(p as u8) }).collect();
        let mut a = vec![0u8; t];
        a[[0, t / 2, t - 1][(k / 2) as usize]] = 1;
        let (ct, sk) = readable(&par, &a, &b, &zero_h, i as usize);
        judge(&par, rec, &ct, &sk)
    });
    // h^-1: c = lift(m) + 3w (x^a - x^b), so that r = 3w (x^a - x^b) h^-1 is visible if ternary
    let case = |w: u16, neg: bool, p: usize, a: usize, b: usize, j: usize| {
        let m = arrangement(&par, j % par.deg());
        let mut c = par.lift(&m);
        let e = 3u16.wrapping_mul(w);
        c[a] = c[a].wrapping_add(e);
        c[b] = c[b].wrapping_sub(e);
        let mut h = vec![0u16; n];
        h[p] = if neg { 0u16.wrapping_sub(inv16(e)) } else { inv16(e) } & par.mask();
        let sk = [&one[..], &one[..], &par.pack_q(&h), &[7u8; 32]].concat();
        (par.pack_q(&par.mod_q(&c)), sk)
    };
    let ws = ex.by(8u64, 80);
    ex.space("inverse.position", "h^-1 with one coefficient: every position x values 1/3w", par.deg() as u64 * ws * 2, |i, rec| {
        let p = (i / (2 * ws)) as usize;
        let w = 2 * ((i / 2 % ws) * 37 % (par.q() as u64 / 16)) as u16 + 1;
        let (ct, sk) = case(w, i % 2 == 1, p, (i as usize * 7) % n, (i as usize * 7 + 1 + i as usize % (n - 2)) % n, p);
        judge(&par, rec, &ct, &sk)
    });
    let nw = par.q() as u64 / 12;
    ex.space("inverse.value", "h^-1 with one coefficient 1/3w: every odd w up to q/6, both signs, three positions", nw * 6, |i, rec| {
        let p = [0, n / 2, n - 2][(i % 3) as usize];
        let (ct, sk) = case(2 * (i / 6) as u16 + 1, i / 3 % 2 == 1, p, i as usize % n, (i as usize + 9) % n, i as usize);
        judge(&par, rec, &ct, &sk)
    });
    // unused bits behind h^-1
    let pads = 1u64 << par.pad_bits();
    ex.space("inverse.padding", "all values of the unused bits behind h^-1", pads * 8, |i, rec| {
        let (ct, mut sk) = case(2 * (i / pads) as u16 + 1, false, n - 2, 3, 50, i as usize);
        sk[2 * t + par.q_bytes() - 1] |= ((i % pads) << (8 - par.pad_bits())) as u8;
        judge(&par, rec, &ct, &sk)
    });
    // honest keys and arbitrary strings
    let cut = ex.by(10u64, 2);
    for s in dec_spaces(par, ex.tier) {
        ex.space(s.name, &format!("{}; every {}th", s.rule, cut), s.total.div_ceil(cut), |i, rec| {
            let x = (s.gen)(i * cut);
            judge(&par, rec, &x.ct, &x.sk)
        });
    }
    for s in wild_dec_spaces(par, ex.tier) {
        ex.space(s.name, &s.rule, s.total, |i, rec| {
            let x = (s.gen)(i);
            judge(&par, rec, &x.ct, &x.sk)
        });
    }
    // parts of two keys that do not belong together
    let keys = model_keys(par, 4);
    ex.space("mixed", "f, f3, h^-1 and ciphertext each of one of four keys: all 256 combinations x 4 ciphertexts", 1024, |i, rec| {
        let k = |s: u64| &keys[(i >> s & 3) as usize];
        let (a, b, c) = (t, 2 * t, 2 * t + par.q_bytes());
        let sk = [&k(0).sk[..a], &k(2).sk[a..b], &k(4).sk[b..c], &k(0).sk[c..]].concat();
        let (ct, _) = par.enc(&k(6).pk, &stream(40 + (i >> 8), par.seed_bytes()));
        judge(&par, rec, &ct, &sk)
    });
}
