//! NTRU round 3 (KEM), generic in n, q and the HPS/HRSS choice, written from the specification.
//! Polynomials are vectors of n coefficients of Z[x]/(x^n - 1), with arithmetic mod 2^16
//! (a multiple of every q); Phi_n = 1 + x + ... + x^(n-1).
use super::keccak::sha3_256;

pub type P = Vec<u16>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Par {
    pub n: usize,
    pub logq: u32,
    pub hrss: bool,
}

pub const HPS2048509: Par = Par { n: 509, logq: 11, hrss: false };
pub const HPS2048677: Par = Par { n: 677, logq: 11, hrss: false };
pub const HPS4096821: Par = Par { n: 821, logq: 12, hrss: false };
pub const HRSS701: Par = Par { n: 701, logq: 13, hrss: true };

pub struct Keys {
    pub f: Vec<u8>,  // trits of f
    pub g: Vec<u8>,  // trits of g (before the factor 3 or 3(x-1))
    pub f3: Vec<u8>, // 1/f mod (3, Phi)
    pub h: P,
    pub hinv: P,
    pub pk: Vec<u8>,
    pub sk: Vec<u8>,
}

pub struct Dec {
    pub pad_ok: bool,
    pub m_ok: bool,
    pub r_ok: bool,
    pub m: Vec<u8>,
    pub r: P, // mod q, reduced mod Phi
    pub k: [u8; 32],
    pub reject_key: [u8; 32],
}

impl Dec {
    pub fn accept(&self) -> bool {
        self.pad_ok && self.m_ok && self.r_ok
    }
}

impl Par {
    pub fn q(&self) -> u32 {
        1 << self.logq
    }
    pub fn mask(&self) -> u16 {
        (self.q() - 1) as u16
    }
    pub fn deg(&self) -> usize {
        self.n - 1
    }
    pub fn tri_bytes(&self) -> usize {
        (self.deg() + 4) / 5
    }
    pub fn q_bytes(&self) -> usize {
        (self.logq as usize * self.deg() + 7) / 8
    }
    pub fn pad_bits(&self) -> usize {
        8 * self.q_bytes() - self.logq as usize * self.deg()
    }
    pub fn weight(&self) -> usize {
        // number of non-zero coefficients of a fixed-type polynomial
        if self.n < 100 {
            2 // scaled-down instances
        } else {
            self.q() as usize / 8 - 2
        }
    }
    pub fn iid_bytes(&self) -> usize {
        self.deg()
    }
    pub fn ft_bytes(&self) -> usize {
        (30 * self.deg() + 7) / 8
    }
    /// length of the (f,g) seed and of the (r,m) seed
    pub fn seed_bytes(&self) -> usize {
        if self.hrss {
            2 * self.iid_bytes()
        } else {
            self.iid_bytes() + self.ft_bytes()
        }
    }
    pub fn sk_bytes(&self) -> usize {
        2 * self.tri_bytes() + self.q_bytes() + 32
    }

    // ---- ring arithmetic ------------------------------------------------------------------
    pub fn mul(&self, a: &[u16], b: &[u16]) -> P {
        let n = self.n;
        let mut acc = vec![0u16; 2 * n];
        for i in 0..n {
            let ai = a[i];
            if ai != 0 {
                for (d, &bj) in acc[i..i + n].iter_mut().zip(b) {
                    *d = d.wrapping_add(ai.wrapping_mul(bj));
                }
            }
        }
        (0..n).map(|i| acc[i].wrapping_add(acc[i + n])).collect()
    }
    /// representative mod Phi with zero top coefficient
    pub fn mod_phi(&self, a: &[u16]) -> P {
        let l = a[self.n - 1];
        a.iter().map(|x| x.wrapping_sub(l)).collect()
    }
    pub fn mod_q(&self, a: &[u16]) -> P {
        a.iter().map(|x| x & self.mask()).collect()
    }
    /// the representative mod x^n - 1 of a class mod Phi whose coefficients sum to zero
    pub fn sum_zero(&self, a: &[u16]) -> P {
        let s = a.iter().fold(0u16, |t, x| t.wrapping_add(*x));
        let z = 0u16.wrapping_sub(s).wrapping_mul(inv16(self.n as u16));
        a.iter().map(|x| x.wrapping_add(z)).collect()
    }
    pub fn centered(&self, x: u16) -> i32 {
        let v = (x & self.mask()) as i32;
        if v >= self.q() as i32 / 2 {
            v - self.q() as i32
        } else {
            v
        }
    }
    pub fn trits_to_q(&self, t: &[u8]) -> P {
        t.iter().map(|&x| [0u16, 1, 0xffff][x as usize]).collect()
    }
    pub fn mul3(&self, a: &[u8], b: &[u8]) -> Vec<u8> {
        let pa: P = a.iter().map(|&x| x as u16).collect();
        let pb: P = b.iter().map(|&x| x as u16).collect();
        self.phi3(&self.mul(&pa, &pb).iter().map(|x| (x % 3) as u8).collect::<Vec<_>>())
    }
    pub fn phi3(&self, a: &[u8]) -> Vec<u8> {
        let l = a[self.n - 1];
        a.iter().map(|x| (x + 3 - l) % 3).collect()
    }
    pub fn inv3(&self, a: &[u8]) -> Option<Vec<u8>> {
        let d = self.deg();
        let mut r0 = vec![1u8; d + 1];
        let mut r1 = self.phi3(a);
        let mut t0 = vec![0u8; d + 2];
        let mut t1 = vec![0u8; d + 2];
        t1[0] = 1;
        let degree = |v: &[u8]| v.iter().rposition(|&x| x != 0);
        let mut d0 = d;
        let mut d1 = degree(&r1)?;
        while d1 > 0 {
            // r0 -= (lc0/lc1) x^s r1 until its degree drops below that of r1
            if d0 < d1 {
                std::mem::swap(&mut r0, &mut r1);
                std::mem::swap(&mut t0, &mut t1);
                std::mem::swap(&mut d0, &mut d1);
                continue;
            }
            let s = d0 - d1;
            let c = (r0[d0] * r1[d1]) % 3; // 1/lc1 = lc1 mod 3
            let neg = (3 - c) % 3;
            for i in 0..=d1 {
                r0[i + s] = (r0[i + s] + neg * r1[i]) % 3;
            }
            for i in 0..t0.len() - s {
                t0[i + s] = (t0[i + s] + neg * t1[i]) % 3;
            }
            match degree(&r0) {
                Some(x) => d0 = x,
                None => return None,
            }
            if d0 < d1 {
                std::mem::swap(&mut r0, &mut r1);
                std::mem::swap(&mut t0, &mut t1);
                std::mem::swap(&mut d0, &mut d1);
            }
        }
        let c = r1[0];
        let mut out = vec![0u8; self.n];
        for (i, &x) in t1.iter().enumerate() {
            out[i % self.n] = (out[i % self.n] + x * c) % 3;
        }
        let out = self.phi3(&out);
        let one = self.mul3(a, &out);
        assert!(one[0] == 1 && one[1..].iter().all(|&x| x == 0), "model: inverse mod 3");
        Some(out)
    }
    /// inverse mod (2, Phi)
    pub fn inv2(&self, a: &[u16]) -> Option<P> {
        let d = self.deg();
        let words = d / 64 + 2;
        let mut r0 = vec![0u64; words];
        for i in 0..=d {
            r0[i / 64] |= 1 << (i % 64);
        }
        let mut r1 = vec![0u64; words];
        let l = a[d];
        for i in 0..d {
            if (a[i] ^ l) & 1 == 1 {
                r1[i / 64] |= 1 << (i % 64);
            }
        }
        let mut t0 = vec![0u64; words];
        let mut t1 = vec![0u64; words];
        t1[0] = 1;
        fn degree(v: &[u64]) -> Option<usize> {
            v.iter().rposition(|&x| x != 0).map(|i| 64 * i + 63 - v[i].leading_zeros() as usize)
        }
        fn xor_shl(dst: &mut [u64], src: &[u64], s: usize) {
            let (w, b) = (s / 64, s % 64);
            for i in (w..dst.len()).rev() {
                let mut x = src[i - w] << b;
                if b > 0 && i > w {
                    x |= src[i - w - 1] >> (64 - b);
                }
                dst[i] ^= x;
            }
        }
        let mut d0 = d;
        let mut d1 = degree(&r1)?;
        while d1 > 0 {
            if d0 < d1 {
                std::mem::swap(&mut r0, &mut r1);
                std::mem::swap(&mut t0, &mut t1);
                std::mem::swap(&mut d0, &mut d1);
                continue;
            }
            xor_shl(&mut r0, &r1, d0 - d1);
            xor_shl(&mut t0, &t1, d0 - d1);
            d0 = degree(&r0)?;
            if d0 < d1 {
                std::mem::swap(&mut r0, &mut r1);
                std::mem::swap(&mut t0, &mut t1);
                std::mem::swap(&mut d0, &mut d1);
            }
        }
        let mut out = vec![0u16; self.n];
        for i in 0..64 * words {
            if t1[i / 64] >> (i % 64) & 1 == 1 {
                out[i % self.n] ^= 1;
            }
        }
        Some(out)
    }
    /// inverse mod (2^16, Phi), reduced mod Phi
    pub fn inv(&self, a: &[u16]) -> Option<P> {
        let mut v = self.mod_phi(&self.inv2(a)?);
        for _ in 0..4 {
            let av = self.mul(a, &v);
            let mut c: P = av.iter().map(|x| 0u16.wrapping_sub(*x)).collect();
            c[0] = c[0].wrapping_add(2);
            v = self.mod_phi(&self.mul(&v, &c));
        }
        let one = self.mod_phi(&self.mul(a, &v));
        assert!(one[0] == 1 && one[1..].iter().all(|&x| x == 0), "model: inverse mod 2^16");
        Some(v)
    }

    // ---- encodings ------------------------------------------------------------------------
    pub fn pack_q(&self, a: &[u16]) -> Vec<u8> {
        let mut out = vec![0u8; self.q_bytes()];
        let l = self.logq as usize;
        for i in 0..self.deg() {
            let v = (a[i] & self.mask()) as u32;
            for b in 0..l {
                if v >> b & 1 == 1 {
                    out[(i * l + b) / 8] |= 1 << ((i * l + b) % 8);
                }
            }
        }
        out
    }
    /// coefficients 0..n-2; top coefficient 0
    pub fn unpack_q(&self, s: &[u8]) -> P {
        let l = self.logq as usize;
        let mut out = vec![0u16; self.n];
        for i in 0..self.deg() {
            for b in 0..l {
                let k = i * l + b;
                out[i] |= ((s[k / 8] >> (k % 8) & 1) as u16) << b;
            }
        }
        out
    }
    pub fn unpack_sum_zero(&self, s: &[u8]) -> P {
        let mut a = self.unpack_q(s);
        let t = a.iter().fold(0u16, |t, x| t.wrapping_add(*x));
        a[self.n - 1] = 0u16.wrapping_sub(t) & self.mask();
        a
    }
    pub fn padding(&self, s: &[u8]) -> u8 {
        let p = self.pad_bits();
        if p == 0 {
            0
        } else {
            s[self.q_bytes() - 1] >> (8 - p)
        }
    }
    pub fn pack_3(&self, t: &[u8]) -> Vec<u8> {
        t[..self.deg()].chunks(5).map(|c| c.iter().rev().fold(0u8, |s, &x| 3 * s + x)).collect()
    }
    pub fn unpack_3(&self, s: &[u8]) -> Vec<u8> {
        let mut out = vec![0u8; self.n];
        for i in 0..self.deg() {
            out[i] = (s[i / 5] as u32 / 3u32.pow(i as u32 % 5) % 3) as u8;
        }
        out
    }

    // ---- sampling -------------------------------------------------------------------------
    pub fn sample_iid(&self, b: &[u8]) -> Vec<u8> {
        let mut v: Vec<u8> = b[..self.deg()].iter().map(|x| x % 3).collect();
        v.push(0);
        v
    }
    pub fn correlation(&self, v: &[u8]) -> i32 {
        let c = |x: u8| [0i32, 1, -1][x as usize];
        (0..self.deg()).map(|i| c(v[i]) * c(v[i + 1])).sum()
    }
    pub fn sample_iid_plus(&self, b: &[u8]) -> Vec<u8> {
        let mut v = self.sample_iid(b);
        if self.correlation(&v) < 0 {
            for i in (0..self.n).step_by(2) {
                v[i] = (3 - v[i]) % 3;
            }
        }
        v
    }
    pub fn sample_fixed(&self, b: &[u8]) -> Vec<u8> {
        let w = self.weight();
        let mut s: Vec<i32> = (0..self.deg())
            .map(|i| {
                let mut x = 0u32;
                for j in 0..30 {
                    let k = 30 * i + j;
                    x |= ((b[k / 8] >> (k % 8) & 1) as u32) << (j + 2);
                }
                let ty = if i < w / 2 {
                    1
                } else if i < w {
                    2
                } else {
                    0
                };
                (x | ty) as i32
            })
            .collect();
        s.sort();
        let mut v: Vec<u8> = s.iter().map(|x| (x & 3) as u8).collect();
        v.push(0);
        v
    }
    pub fn sample_fg(&self, seed: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let (a, b) = seed.split_at(self.iid_bytes());
        if self.hrss {
            (self.sample_iid_plus(a), self.sample_iid_plus(b))
        } else {
            (self.sample_iid(a), self.sample_fixed(b))
        }
    }
    pub fn sample_rm(&self, seed: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let (a, b) = seed.split_at(self.iid_bytes());
        (self.sample_iid(a), if self.hrss { self.sample_iid(b) } else { self.sample_fixed(b) })
    }

    // ---- scheme ---------------------------------------------------------------------------
    /// 3g (HPS) or 3(x-1)g (HRSS), in Z[x]/(x^n-1)
    pub fn big_g(&self, g: &[u8]) -> P {
        let gq = self.trits_to_q(g);
        (0..self.n)
            .map(|i| {
                let v = if self.hrss { gq[(i + self.n - 1) % self.n].wrapping_sub(gq[i]) } else { gq[i] };
                v.wrapping_mul(3)
            })
            .collect()
    }
    pub fn keys_from(&self, f: &[u8], g: &[u8], prf: &[u8; 32]) -> Option<Keys> {
        let f3 = self.inv3(f)?;
        let fq = self.trits_to_q(f);
        let gg = self.big_g(g);
        let i = self.inv(&self.mul(&gg, &fq))?;
        let h = self.mod_q(&self.sum_zero(&self.mod_phi(&self.mul(&self.mul(&i, &gg), &gg))));
        let hinv = self.mod_q(&self.mod_phi(&self.mul(&self.mul(&i, &fq), &fq)));
        let pk = self.pack_q(&h);
        let sk = [self.pack_3(f), self.pack_3(&f3), self.pack_q(&hinv), prf.to_vec()].concat();
        Some(Keys { f: f.to_vec(), g: g.to_vec(), f3, h, hinv, pk, sk })
    }
    pub fn keypair(&self, seed: &[u8], prf: &[u8; 32]) -> Option<Keys> {
        let (f, g) = self.sample_fg(seed);
        self.keys_from(&f, &g, prf)
    }
    pub fn lift(&self, m: &[u8]) -> P {
        if !self.hrss {
            return self.trits_to_q(m);
        }
        // b = m / (x-1) mod (3, Phi), then (x-1) * b over the integers
        let n = self.n;
        let m1: u32 = m.iter().map(|&x| x as u32).sum::<u32>() % 3;
        let ninv = n as u32 % 3; // 1/n mod 3 = n mod 3
        let s = ((3 - m1) * ninv) % 3;
        let mut b = vec![0u8; n];
        let mut prev = 0u32; // b[n-1] = 0
        for i in 0..n {
            prev = (prev + 3 - (m[i] as u32 + s) % 3) % 3;
            b[i] = prev as u8;
        }
        assert!(b[n - 1] == 0, "model: lift");
        let bq = self.trits_to_q(&b);
        (0..n).map(|i| bq[(i + n - 1) % n].wrapping_sub(bq[i])).collect()
    }
    pub fn encrypt(&self, r: &[u8], m: &[u8], h: &[u16]) -> P {
        let rh = self.mul(&self.trits_to_q(r), h);
        let l = self.lift(m);
        (0..self.n).map(|i| rh[i].wrapping_add(l[i]) & self.mask()).collect()
    }
    pub fn key_of(&self, r: &[u8], m: &[u8]) -> [u8; 32] {
        sha3_256(&[&self.pack_3(r), &self.pack_3(m)])
    }
    pub fn enc(&self, pk: &[u8], seed: &[u8]) -> (Vec<u8>, [u8; 32]) {
        let (r, m) = self.sample_rm(seed);
        let h = self.unpack_sum_zero(pk);
        (self.pack_q(&self.encrypt(&r, &m, &h)), self.key_of(&r, &m))
    }
    pub fn m_valid(&self, m: &[u8]) -> bool {
        self.hrss
            || (m.iter().filter(|&&x| x == 1).count() == self.weight() / 2
                && m.iter().filter(|&&x| x == 2).count() == self.weight() / 2)
    }
    /// polynomial part of decryption: (m, r mod (q,Phi))
    pub fn decrypt(&self, c: &[u16], f: &[u8], f3: &[u8], hinv: &[u16]) -> (Vec<u8>, P) {
        let cf = self.mul(c, &self.trits_to_q(f));
        let t: Vec<u8> = cf.iter().map(|&x| self.centered(x).rem_euclid(3) as u8).collect();
        let m = self.mul3(&self.phi3(&t), f3);
        let l = self.lift(&m);
        let b: P = (0..self.n).map(|i| c[i].wrapping_sub(l[i])).collect();
        let r = self.mod_q(&self.mod_phi(&self.mul(&b, hinv)));
        (m, r)
    }
    pub fn r_trits(&self, r: &[u16]) -> Option<Vec<u8>> {
        r.iter()
            .map(|&x| match self.centered(x) {
                0 => Some(0u8),
                1 => Some(1),
                -1 => Some(2),
                _ => None,
            })
            .collect()
    }
    pub fn dec(&self, ct: &[u8], sk: &[u8]) -> Dec {
        let t = self.tri_bytes();
        let f = self.unpack_3(&sk[..t]);
        let f3 = self.unpack_3(&sk[t..2 * t]);
        let hinv = self.unpack_q(&sk[2 * t..2 * t + self.q_bytes()]);
        let prf = &sk[2 * t + self.q_bytes()..];
        let (m, r) = self.decrypt(&self.unpack_sum_zero(ct), &f, &f3, &hinv);
        let reject_key = sha3_256(&[prf, ct]);
        let pad_ok = self.padding(ct) == 0;
        let m_ok = self.m_valid(&m);
        let rt = self.r_trits(&r);
        let k = match &rt {
            Some(rt) if pad_ok && m_ok => self.key_of(rt, &m),
            _ => reject_key,
        };
        Dec { pad_ok, m_ok, r_ok: rt.is_some(), m, r, k, reject_key }
    }

    // ---- inverse problems used to build inputs ----------------------------------------------
    /// seed bytes that make the fixed-type sampler return `t`
    pub fn fixed_seed_for(&self, t: &[u8]) -> Vec<u8> {
        let w = self.weight();
        let mut pos: [Vec<usize>; 3] = Default::default();
        for i in 0..self.deg() {
            pos[t[i] as usize].push(i);
        }
        assert!(pos[1].len() == w / 2 && pos[2].len() == w / 2);
        let mut ranks = vec![0usize; self.deg()];
        let (mut i0, mut i1, mut i2) = (0, 0, 0);
        for i in 0..self.deg() {
            if i < w / 2 {
                ranks[i] = pos[1][i1];
                i1 += 1;
            } else if i < w {
                ranks[i] = pos[2][i2];
                i2 += 1;
            } else {
                ranks[i] = pos[0][i0];
                i0 += 1;
            }
        }
        let keys: Vec<u32> = ranks.iter().map(|&r| (r as u32).wrapping_mul(1 << 18).wrapping_sub(1 << 27) & 0x3fff_ffff).collect();
        self.fixed_seed_from_keys(&keys)
    }
    /// seed bytes for given 30-bit sort keys
    pub fn fixed_seed_from_keys(&self, keys: &[u32]) -> Vec<u8> {
        let mut b = vec![0u8; self.ft_bytes()];
        for (i, &x) in keys.iter().enumerate() {
            for j in 0..30 {
                if x >> j & 1 == 1 {
                    b[(30 * i + j) / 8] |= 1 << ((30 * i + j) % 8);
                }
            }
        }
        b
    }
}

pub fn inv16(a: u16) -> u16 {
    let mut v = 1u16;
    for _ in 0..5 {
        v = v.wrapping_mul(2u16.wrapping_sub(a.wrapping_mul(v)));
    }
    v
}
