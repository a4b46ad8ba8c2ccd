//! The finite input spaces. Each is an index -> input function with a stated size, so that
//! every element is visited and every counterexample is named by (space, index).
use crate::explore::Tier;
use crate::model::drbg::Drbg;
use crate::model::ntru::{Keys, Par, P};

pub struct Space<T> {
    pub name: &'static str,
    pub rule: String,
    pub total: u64,
    pub gen: Box<dyn Fn(u64) -> T + Sync + Send>,
}

pub fn sp<T, F: Fn(u64) -> T + Sync + Send + 'static>(name: &'static str, rule: impl Into<String>, total: u64, gen: F) -> Space<T> {
    Space { name, rule: rule.into(), total, gen: Box::new(gen) }
}

#[derive(Clone)]
pub struct KeyIn {
    pub seed: Vec<u8>,
    pub prf: [u8; 32],
}
#[derive(Clone)]
pub struct EncIn {
    pub pk: Vec<u8>,
    pub seed: Vec<u8>,
}
#[derive(Clone)]
pub struct DecIn {
    pub sk: Vec<u8>,
    pub ct: Vec<u8>,
}

pub fn stream(j: u64, len: usize) -> Vec<u8> {
    let mut e = [0u8; 48];
    e[..8].copy_from_slice(&j.to_le_bytes());
    e[40..].copy_from_slice(b"ntrustmc");
    Drbg::seeded(&e).bytes(len)
}

pub fn prf_of(j: u64) -> [u8; 32] {
    let mut p = [0u8; 32];
    p.copy_from_slice(&stream(j ^ (1 << 40), 32));
    p
}

/// boundary pairs of 30-bit sort keys (as signed values)
pub const SORT_PAIRS: [(i32, i32); 12] = [
    (-(1 << 29), (1 << 29) - 1),
    (0, 1),
    (-1, 0),
    ((1 << 29) - 2, (1 << 29) - 1),
    (-(1 << 29), -(1 << 29) + 1),
    (-(1 << 29), 0),
    (-1, (1 << 29) - 1),
    (-(1 << 28), 1 << 28),
    (-(1 << 28) - 1, 1 << 28),
    (-(1 << 29), -1),
    (0x1555_5555, 0x1555_5556),
    (-0x1fff_0000, 0x1fff_0000),
];

fn key30(v: i32) -> u32 {
    v as u32 & 0x3fff_ffff
}

/// all-ternary windows: digits of i in base 3 placed at positions start..start+w
fn window(par: &Par, start: usize, w: usize, mut i: u64) -> Vec<u8> {
    let mut v = vec![0u8; par.n];
    for j in 0..w {
        v[start + j] = (i % 3) as u8;
        i /= 3;
    }
    v
}

fn onehot(par: &Par, i: u64) -> Vec<u8> {
    let mut v = vec![0u8; par.n];
    v[(i / 2) as usize] = 1 + (i % 2) as u8;
    v
}

/// iid seed bytes for trits, with the byte's multiple of three varying with the position
pub fn iid_seed(par: &Par, t: &[u8]) -> Vec<u8> {
    (0..par.deg()).map(|i| t[i] + 3 * ((i * 37) % 85) as u8).collect()
}

/// an arrangement of the fixed type: `rot` rotates 1^a 2^a 0^rest interleaved by `stride`
pub fn arrangement(par: &Par, rot: usize) -> Vec<u8> {
    let (d, w) = (par.deg(), par.weight());
    let mut v = vec![0u8; par.n];
    for i in 0..d {
        v[(i + rot) % d] = if i < w / 2 {
            1
        } else if i < w {
            2
        } else {
            0
        };
    }
    v
}

/// structured ternary polynomials: monomials, constants, alternations, halves, sparse ends
pub fn corner_iid(par: &Par) -> Vec<Vec<u8>> {
    let (n, d) = (par.n, par.deg());
    let mk = |f: &dyn Fn(usize) -> u8| -> Vec<u8> { (0..n).map(|i| if i < d { f(i) } else { 0 }).collect() };
    vec![
        mk(&|i| (i == 0) as u8),
        mk(&|i| 2 * (i == 0) as u8),
        mk(&|i| (i == 1) as u8),
        mk(&|i| 2 * (i == 1) as u8),
        mk(&|i| (i == d - 1) as u8),
        mk(&|i| 2 * (i == d - 1) as u8),
        mk(&|_| 1),
        mk(&|_| 2),
        mk(&|i| 1 + (i % 2) as u8),
        mk(&|i| 2 - (i % 2) as u8),
        mk(&|i| (i % 3) as u8),
        mk(&|i| if i < d / 2 { 1 } else { 2 }),
        mk(&|i| (i == 0 || i == d - 1) as u8),
        mk(&|i| if i % 2 == 0 { 2 } else { 0 }),
    ]
}

/// structured arrangements of the fixed type
pub fn corner_fixed(par: &Par) -> Vec<Vec<u8>> {
    let (n, d, w) = (par.n, par.deg(), par.weight());
    let from = |order: &dyn Fn(usize) -> usize, alt: bool| -> Vec<u8> {
        let mut v = vec![0u8; n];
        for i in 0..w {
            v[order(i)] = if alt { 1 + (i % 2) as u8 } else { 1 + (i >= w / 2) as u8 };
        }
        v
    };
    let mut spread: Vec<usize> = (0..d).step_by(2).chain((1..d).step_by(2)).collect();
    spread.truncate(w);
    vec![
        arrangement(par, 0),
        arrangement(par, d - w),
        arrangement(par, d - w / 2),
        from(&|i| i, true),
        from(&|i| d - 1 - i, true),
        from(&|i| d - 1 - i, false),
        from(&|i| spread[i], false),
        dense_fixed(par, 99),
    ]
}

/// number of second polynomials in a corner grid and the i-th one as seed bytes
fn corner2(par: Par) -> Vec<Vec<u8>> {
    if par.hrss {
        corner_iid(&par).iter().map(|t| iid_seed(&par, t)).collect()
    } else {
        corner_fixed(&par).iter().map(|t| par.fixed_seed_for(t)).collect()
    }
}

/// every pair of structured polynomials (f, g) or (r, m), as seeds
pub fn corner_seeds(par: Par) -> Vec<Vec<u8>> {
    let b = corner2(par);
    let mut v: Vec<Vec<u8>> = corner_iid(&par).iter().flat_map(|t| b.iter().map(move |s| [iid_seed(&par, t), s.clone()].concat())).collect();
    // both polynomials equal or opposite
    if !par.hrss {
        for t in corner_fixed(&par) {
            let neg: Vec<u8> = t.iter().map(|&x| (3 - x) % 3).collect();
            v.push([iid_seed(&par, &t), par.fixed_seed_for(&t)].concat());
            v.push([iid_seed(&par, &neg), par.fixed_seed_for(&t)].concat());
        }
    }
    v
}

/// seeds of key generation whose f is the inverse of a structured polynomial: mod 2 of x^k/g
/// (so that f*g is x^k mod 2), or mod 3 of a sparse one (so that f3 is sparse)
fn inverse_seeds(par: Par, i: u64) -> Vec<u8> {
    let d = par.deg();
    let second = corner2(par);
    let ns = second.len() as u64;
    let ks = [0usize, 1, 2, d / 2, d - 1, d];
    if i < 6 * ns {
        let s2 = &second[(i % ns) as usize];
        let g = if par.hrss { par.sample_iid_plus(s2) } else { par.sample_fixed(s2) };
        let gg = par.big_g(&g);
        let f = match par.inv2(&gg) {
            Some(inv) => {
                // x^k / G mod (2, Phi)
                let k = ks[(i / ns) as usize];
                let n = par.n;
                let s: Vec<u8> = (0..n).map(|j| (inv[(j + n - k) % n] & 1) as u8).collect();
                (0..n).map(|j| (s[j] ^ s[n - 1]) & 1).collect()
            }
            None => vec![1; par.n],
        };
        return [iid_seed(&par, &f), s2.clone()].concat();
    }
    let i = i - 6 * ns;
    let t = if i < 243 { window(&par, 0, 5, i) } else { onehot(&par, (i - 243) * 2 * d as u64 / 40) };
    let f = par.inv3(&t).unwrap_or(vec![0; par.n]);
    [iid_seed(&par, &f), half2(&par, i)].concat()
}
fn inverse_count(par: Par) -> u64 {
    6 * if par.hrss { 14 } else { 8 } + 243 + 40
}

pub fn dense_fixed(par: &Par, j: u64) -> Vec<u8> {
    par.sample_fixed(&stream(j ^ 0x7777_0000, par.ft_bytes()))
}

/// second half of a seed for the second sampled polynomial
fn half2(par: &Par, j: u64) -> Vec<u8> {
    stream(j ^ 0x5a5a_0000, par.seed_bytes() - par.iid_bytes())
}

fn w3(w: u32) -> u64 {
    3u64.pow(w)
}

/// de Bruijn sequence of order 2 on bytes: a, then (a, b) for every b > a
fn debruijn2() -> Vec<u8> {
    let mut v = vec![];
    for a in 0..=255u8 {
        v.push(a);
        for b in (a as u16 + 1)..256 {
            v.push(a);
            v.push(b as u8);
        }
    }
    v
}

/// first halves (iid polynomials f or r) shared by key generation and encapsulation
fn iid_spaces(par: Par, t: Tier) -> Vec<Space<Vec<u8>>> {
    let q = t == Tier::Quick;
    let w: u32 = if q { 5 } else { 7 };
    let d = par.deg();
    let mut v: Vec<Space<Vec<u8>>> = vec![];
    v.push(sp("iid.onehot", "+-x^i for every i", 2 * d as u64, move |i| iid_seed(&par, &onehot(&par, i))));
    v.push(sp("iid.window_lo", format!("every ternary pattern on the lowest {} positions, zero elsewhere", w), w3(w), move |i| {
        iid_seed(&par, &window(&par, 0, w as usize, i))
    }));
    v.push(sp("iid.window_hi", format!("every ternary pattern on the highest {} positions, zero elsewhere", w), w3(w), move |i| {
        iid_seed(&par, &window(&par, d - w as usize, w as usize, i))
    }));
    v.push(sp("iid.bytes", "256 seeds in which every position takes every byte value once", 256, move |i| {
        (0..d).map(|p| (i as usize + 7 * p) as u8).collect()
    }));
    v.push(sp("iid.const", "all seed bytes equal, every value", 256, move |i| vec![i as u8; d]));
    v.push(sp("iid.prefix", "constant +1 or -1 on the first j positions, every j", 2 * d as u64, move |i| {
        let j = (i / 2) as usize + 1;
        let mut v = vec![0u8; par.n];
        v[..j].iter_mut().for_each(|x| *x = 1 + (i % 2) as u8);
        iid_seed(&par, &v)
    }));
    v.push(sp("iid.group", "243 seeds in which every group of five positions takes every ternary pattern once", 243, move |i| {
        let t: Vec<u8> = (0..d).map(|p| ((i as usize + 17 * (p / 5)) % 243 / 3usize.pow(p as u32 % 5) % 3) as u8).collect();
        iid_seed(&par, &t)
    }));
    let db = std::sync::Arc::new(debruijn2());
    v.push(sp("iid.pairs", "consecutive windows of a cyclic sequence containing every pair of adjacent byte values", (65536 / (d - 1) + 1) as u64, move |i| {
        (0..d).map(|p| db[(i as usize * (d - 1) + p) % 65536]).collect()
    }));
    let js = if !q { 1 } else if par.hrss { 3 } else { 11 };
    let nj = (d + js - 1) / js;
    v.push(sp("iid.alt", format!("alternating signs on the first j positions then constant on the next l: every {}th j, l in {{0, j-1, j, j+1}}", js), 4 * nj as u64, move |i| {
        let j = ((i / 4) as usize * js + (i % 4) as usize % js).min(d - 1) + 1;
        let l = [0, j - 1, j, j + 1][(i % 4) as usize];
        let mut v = vec![0u8; par.n];
        for p in 0..(j + l).min(d) {
            v[p] = if p < j { 1 + (p % 2) as u8 } else { v[j - 1] };
        }
        iid_seed(&par, &v)
    }));
    v
}

/// second halves for HPS (fixed type polynomials g or m), given through their sort keys
fn fixed_spaces(par: Par, t: Tier) -> Vec<Space<Vec<u8>>> {
    let q = t == Tier::Quick;
    let d = par.deg();
    let np = SORT_PAIRS.len() as u64;
    let mut v: Vec<Space<Vec<u8>>> = vec![];
    v.push(sp("fix.onekey", "one high sort key among low ones and one low among high ones, every position, 12 boundary pairs", np * 2 * d as u64, move |i| {
        let (a, b) = SORT_PAIRS[(i % np) as usize];
        let i = i / np;
        let (base, one) = if i % 2 == 0 { (a, b) } else { (b, a) };
        let mut k = vec![key30(base); d];
        k[(i / 2) as usize] = key30(one);
        par.fixed_seed_from_keys(&k)
    }));
    v.push(sp("fix.period", "every two-valued key pattern of period 1..8, 12 boundary pairs", np * 510, move |i| {
        let (a, b) = SORT_PAIRS[(i % np) as usize];
        let mut i = i / np;
        let mut p = 1;
        while i >= 1 << p {
            i -= 1 << p;
            p += 1;
        }
        let k: Vec<u32> = (0..d).map(|x| key30(if i >> (x % p) & 1 == 1 { b } else { a })).collect();
        par.fixed_seed_from_keys(&k)
    }));
    v.push(sp("fix.rot", "increasing and decreasing keys over the full 30-bit range, every rotation", 2 * d as u64, move |i| {
        let step = (1i64 << 30) / d as i64;
        let k: Vec<u32> = (0..d)
            .map(|x| {
                let y = (x + (i / 2) as usize) % d;
                let y = if i % 2 == 0 { y } else { d - 1 - y };
                key30((y as i64 * step - (1 << 29)) as i32)
            })
            .collect();
        par.fixed_seed_from_keys(&k)
    }));
    v.push(sp("fix.rot_dup", "sorted keys with duplicates and gaps of 1, every rotation", d as u64, move |i| {
        let k: Vec<u32> = (0..d).map(|x| key30(((x + i as usize) % d / 3) as i32 - 60)).collect();
        par.fixed_seed_from_keys(&k)
    }));
    v.push(sp("fix.arr", "every rotation of the arrangement 1^a (-1)^a 0^b", d as u64, move |i| par.fixed_seed_for(&arrangement(&par, i as usize))));
    let st = if q { 16 } else { 2 };
    let m = (d + st - 1) / st;
    v.push(sp(
        "fix.interval",
        format!("keys low^a high^b low^c and complement, a and b multiples of {}, extreme and adjacent values", st),
        4 * (m * m) as u64,
        move |i| {
            let (a, b) = SORT_PAIRS[(i % 2) as usize];
            let comp = i / 2 % 2 == 1;
            let i = (i / 4) as usize;
            let (s, l) = ((i / m) * st, (i % m) * st + 1);
            let k: Vec<u32> = (0..d).map(|x| key30(if (x >= s && x < s + l) != comp { b } else { a })).collect();
            par.fixed_seed_from_keys(&k)
        },
    ));
    v.push(sp("fix.bits", "keys that differ from one of 4 base values in a single bit, every bit, on 5 patterns of positions; keys with one bit set or cleared, every bit at every position", 600 + 60, move |i| {
        let k: Vec<u32> = if i < 600 {
            let base = [0, 0x3fff_ffff, 0x1555_5555, 0x2aaa_aaaa][(i % 4) as usize];
            let bit = 1u32 << (i / 4 % 30);
            let pat = i / 120;
            (0..d).map(|p| base ^ if [p % 2 == 0, p < d / 2, p % 3 == 0, p >= par.weight() / 2, p * p % 7 < 3][pat as usize] { bit } else { 0 }).collect()
        } else {
            let i = i as usize - 600;
            (0..d).map(|p| (1u32 << ((i / 2 + p) % 30)) ^ if i % 2 == 0 { 0 } else { 0x3fff_ffff }).collect()
        };
        par.fixed_seed_from_keys(&k)
    }));
    v.push(sp("fix.const", "all seed bytes equal, every value", 256, move |i| vec![i as u8; par.ft_bytes()]));
    v.push(sp("fix.bytes", "256 seeds in which every seed byte takes every value once", 256, move |i| {
        (0..par.ft_bytes()).map(|p| (i as usize + 11 * p) as u8).collect()
    }));
    v
}

fn every(cut: u64) -> String {
    if cut > 1 {
        format!(" (every {}th)", cut)
    } else {
        String::new()
    }
}

/// seeds of both samplers; large spaces keep one element in `thin` (the expensive key generation)
fn combine(par: Par, t: Tier, thin: u64) -> Vec<Space<Vec<u8>>> {
    let q = t == Tier::Quick;
    let mut out: Vec<Space<Vec<u8>>> = vec![];
    let firsts = iid_spaces(par, t);
    for s in firsts {
        let name = s.name;
        let g = s.gen;
        let cut = if q && thin > 1 && s.name == "iid.prefix" { 3 } else { 1 };
        out.push(Space {
            name,
            rule: format!("first polynomial: {}{}; second polynomial: dense", s.rule, every(cut)),
            total: (s.total + cut - 1) / cut,
            gen: Box::new(move |i| [g(i * cut), half2(&par, i)].concat()),
        });
    }
    if par.hrss {
        for (s, name) in iid_spaces(par, t).into_iter().zip(["2.onehot", "2.window_lo", "2.window_hi", "2.bytes", "2.const", "2.prefix", "2.group", "2.pairs", "2.alt"]) {
            let g = s.gen;
            let cut = if q && thin > 1 && (s.name == "iid.prefix" || s.name == "iid.onehot") { 3 } else { 1 };
            out.push(Space {
                name,
                rule: format!("first polynomial: dense; second polynomial: {}{}", s.rule, every(cut)),
                total: (s.total + cut - 1) / cut,
                gen: Box::new(move |i| [stream(i ^ 0x1234_0000, par.iid_bytes()), g(i * cut)].concat()),
            });
        }
    } else {
        for s in fixed_spaces(par, t) {
            let g = s.gen;
            let cut = if s.total > 3 * par.n as u64 {
                thin
            } else if q && thin > 1 && s.total > 400 {
                3
            } else {
                1
            };
            let tot = (s.total + cut - 1) / cut;
            out.push(Space {
                name: s.name,
                rule: format!("first polynomial: dense; second polynomial: {}{}", s.rule, every(cut)),
                total: tot,
                gen: Box::new(move |i| [stream(i ^ 0x1234_0000, par.iid_bytes()), g(i * cut)].concat()),
            });
        }
    }
    out.push(sp("const", "all seed bytes equal, every value", 256, move |i| vec![i as u8; par.seed_bytes()]));
    let c = corner_seeds(par);
    out.push(sp("corner", "every pair of structured polynomials (monomials, constants, alternations, halves; for fixed types block, spread and alternating arrangements; equal and opposite pairs)", c.len() as u64, move |i| {
        c[i as usize].clone()
    }));
    let j = if thin > 1 {
        if q { 400 } else { 12_000 }
    } else if q {
        3000
    } else {
        100_000
    };
    out.push(sp("dense", "DRBG streams numbered 0..", j, move |i| stream(i, par.seed_bytes())));
    out
}

/// Seeds of key generation that once made the code panic or misbehave (found offline by
/// scanning DRBG streams); part of every exploration.
pub fn historic_key_streams(par: &Par) -> &'static [u64] {
    match (par.n, par.hrss) {
        (509, _) => &HIST509,
        (677, _) => &HIST677,
        (821, _) => &HIST821,
        (701, _) => &HIST701,
        _ => &[],
    }
}
include!("historic.rs");

pub fn key_spaces(par: Par, t: Tier) -> Vec<Space<KeyIn>> {
    let thin = if t == Tier::Quick { 47 } else { 7 };
    let mut v: Vec<Space<KeyIn>> = combine(par, t, thin)
        .into_iter()
        .map(|s| {
            let g = s.gen;
            Space { name: s.name, rule: s.rule, total: s.total, gen: Box::new(move |i| KeyIn { seed: g(i), prf: prf_of(i) }) as Box<dyn Fn(u64) -> KeyIn + Sync + Send> }
        })
        .collect();
    let h = historic_key_streams(&par);
    v.push(sp("historic", "streams on which an intermediate carry of key generation overflows 16 bits", h.len() as u64, move |i| KeyIn {
        seed: stream(h[i as usize], par.seed_bytes()),
        prf: prf_of(i),
    }));
    v.push(sp("inverse", "f = x^k/G mod 2 for structured G, so that f*G is a monomial mod 2; f = 1/t mod 3 for every t on the lowest 5 positions and 40 monomials", inverse_count(par), move |i| KeyIn {
        seed: inverse_seeds(par, i),
        prf: prf_of(i),
    }));
    v.push(sp("prf.const", "all bytes of the rejection key equal, every value; dense seed / seed of the same byte", 512, move |i| {
        let b = (i / 2) as u8;
        KeyIn { seed: if i % 2 == 0 { stream(78, par.seed_bytes()) } else { vec![b; par.seed_bytes()] }, prf: [b; 32] }
    }));
    v.push(sp("prf", "every single-bit rejection key, its complement", 512, move |i| {
        let mut p = [if i % 2 == 0 { 0 } else { 0xff }; 32];
        p[(i / 16) as usize] ^= 1 << (i / 2 % 8);
        KeyIn { seed: stream(77, par.seed_bytes()), prf: p }
    }));
    v
}

/// seeds for encapsulation
pub fn rand_spaces(par: Par, t: Tier) -> Vec<Space<Vec<u8>>> {
    combine(par, t, 1)
}

/// model key pairs (independent of the implementation)
pub fn model_keys(par: Par, count: u64) -> Vec<Keys> {
    (0..count).map(|j| par.keypair(&stream(9_000 + j, par.seed_bytes()), &prf_of(9_000 + j)).unwrap()).collect()
}

/// model keys for structured (f, g): f runs through the corners, g along
pub fn corner_keys(par: Par, count: usize) -> Vec<Keys> {
    let all = corner_seeds(par);
    let nf = corner_iid(&par).len();
    let ng = corner2(par).len();
    let at = |j: usize| (j * 5 % nf) * ng + (j * 3 + j / nf) % ng;
    (0..count).filter_map(|j| par.keypair(&all[at(j)], &prf_of(j as u64))).collect()
}

/// honest key with f = 1: its ciphertexts can be composed by hand
pub fn unit_key(par: Par) -> Keys {
    let mut f = vec![0u8; par.n];
    f[0] = 1;
    let g = if par.hrss { par.sample_iid_plus(&stream(5, par.iid_bytes())) } else { dense_fixed(&par, 5) };
    par.keys_from(&f, &g, &prf_of(5)).unwrap()
}

/// honest key whose f and g line up with few messages in an extremal way
pub fn extremal_key(par: Par, j: u64) -> Keys {
    if par.hrss {
        // long runs maximise the coefficients of (x-1)-multiples subject to the correlation rule
        let p = [2usize, 3, 4, 5][j as usize % 4];
        let mk = |s: usize| -> Vec<u8> {
            let b: Vec<u8> = (0..par.deg()).map(|i| if ((i + s) / p) % 2 == 0 { 1 } else { 2 }).collect();
            par.sample_iid_plus(&b)
        };
        if let Some(k) = par.keys_from(&mk(0), &mk(1), &prf_of(j)) {
            return k;
        }
        let mut f = mk(0);
        f[0] = 0;
        par.keys_from(&f, &mk(1), &prf_of(j)).unwrap()
    } else {
        // f without zeros, so that m of full weight lines up with it everywhere
        let b: Vec<u8> = stream(600 + j, par.deg()).iter().map(|x| 1 + x % 2).collect();
        let f = par.sample_iid(&b);
        par.keys_from(&f, &dense_fixed(&par, 600 + j), &prf_of(j)).unwrap()
    }
}

/// (r, m) that drive coefficient k of r*G + m*f to the largest magnitude of the given sign
pub fn extremal_rm(par: Par, key: &Keys, k: usize, neg: bool) -> (Vec<u8>, Vec<u8>) {
    let n = par.n;
    let gg = par.big_g(&key.g);
    let c = |x: i32| -> u8 {
        let x = if neg { -x } else { x };
        if x > 0 {
            1
        } else if x < 0 {
            2
        } else {
            0
        }
    };
    let fs = |x: u8| [0i32, 1, -1][x as usize];
    let mut r = vec![0u8; n];
    for i in 0..par.deg() {
        r[i] = c(gg[(k + n - i) % n] as i16 as i32);
    }
    let mut m = vec![0u8; n];
    if par.hrss {
        // lift(m) = (x-1) b with <(x-1)b shifted, f> maximal
        let mut b = vec![0u8; n];
        for i in 0..n - 1 {
            // coefficient k of (x-1) b f: sum_i b_i (f_{k-1-i} - f_{k-i})
            b[i] = c(fs(key.f[(2 * n + k - 1 - i) % n]) - fs(key.f[(n + k - i) % n]));
        }
        let mut t = vec![0u8; n];
        for i in 0..n {
            t[i] = (b[(i + n - 1) % n] + 3 - b[i]) % 3;
        }
        m = par.phi3(&t);
    } else {
        let (mut a, mut b) = (par.weight() / 2, par.weight() / 2);
        for i in 0..par.deg() {
            match c(fs(key.f[(k + n - i) % n])) {
                1 if a > 0 => {
                    m[i] = 1;
                    a -= 1;
                }
                2 if b > 0 => {
                    m[i] = 2;
                    b -= 1;
                }
                _ => {}
            }
        }
        for i in 0..par.deg() {
            if m[i] == 0 && a > 0 {
                m[i] = 1;
                a -= 1;
            } else if m[i] == 0 && b > 0 {
                m[i] = 2;
                b -= 1;
            }
        }
    }
    (r, m)
}

/// seed that makes encapsulation use exactly (r, m)
pub fn seed_for_rm(par: Par, r: &[u8], m: &[u8]) -> Vec<u8> {
    let b = if par.hrss { iid_seed(&par, m) } else { par.fixed_seed_for(m) };
    [iid_seed(&par, r), b].concat()
}

/// ciphertext of arbitrary integer r and any ternary m, shifted into the c(1) = 0 representative
pub fn craft(par: Par, h: &[u16], r: &[i32], m: &[u8]) -> Vec<u8> {
    let rq: P = r.iter().map(|&x| x as u16).collect();
    let rh = par.mul(&rq, h);
    let l = par.lift(m);
    let y: P = (0..par.n).map(|i| rh[i].wrapping_add(l[i])).collect();
    par.pack_q(&par.sum_zero(&y))
}

pub fn sparse_r(par: Par, salt: usize) -> Vec<i32> {
    let mut r = vec![0i32; par.n];
    for j in 0..9 {
        let p = (salt * 31 + j * 53 + j * j) % par.deg();
        r[p] = if (j + salt) % 2 == 0 { 1 } else { -1 };
    }
    r
}

pub fn m_of(par: Par, i: u64) -> Vec<u8> {
    if par.hrss {
        par.sample_iid(&stream(i ^ 0x3333_0000, par.iid_bytes()))
    } else {
        dense_fixed(&par, i)
    }
}

fn bad_values(par: &Par, t: Tier) -> Vec<i32> {
    let lim = par.q() as i32 / 2;
    let mut v: Vec<i32> = vec![];
    if t == Tier::Quick {
        let mut s = std::collections::BTreeSet::new();
        for x in [2, 3, 4, 5, 6, 7, 9, 10, 12] {
            s.insert(x);
        }
        let mut p = 4;
        while p <= lim {
            for e in [-1, 0, 1] {
                s.insert(p + e);
            }
            p *= 2;
        }
        for x in s {
            if x >= 2 && x <= lim {
                v.push(x);
                if x < lim {
                    v.push(-x);
                }
            }
        }
    } else {
        for x in 2..=lim {
            v.push(x);
            if x < lim {
                v.push(-x);
            }
        }
    }
    v
}

/// ciphertexts for well-formed secret keys
pub fn dec_spaces(par: Par, t: Tier) -> Vec<Space<DecIn>> {
    let q = t == Tier::Quick;
    let n = par.n;
    let d = par.deg();
    let mut v: Vec<Space<DecIn>> = vec![];
    let keys: std::sync::Arc<Vec<Keys>> = std::sync::Arc::new(model_keys(par, 4));
    let unit = std::sync::Arc::new(unit_key(par));
    let honest = {
        let keys = keys.clone();
        move |k: usize, j: u64| -> (Vec<u8>, Vec<u8>) {
            let (c, _) = par.enc(&keys[k].pk, &stream(j, par.seed_bytes()));
            (keys[k].sk.clone(), c)
        }
    };
    let bits = par.q_bytes() as u64 * 8;

    // honest ciphertexts
    let h = honest.clone();
    v.push(sp("honest.dense", "4 honest keys x dense honest ciphertexts", if q { 1200 } else { 40_000 }, move |i| {
        let (sk, ct) = h((i % 4) as usize, 100 + i);
        DecIn { sk, ct }
    }));
    for s in rand_spaces(par, Tier::Quick) {
        let g = s.gen;
        let keys = keys.clone();
        let cut = if q && s.total > 4000 { 9 } else { 1 };
        let name: &'static str = Box::leak(format!("honest.{}", s.name).into_boxed_str());
        if s.name == "dense" {
            continue;
        }
        v.push(Space {
            name,
            rule: format!("honest ciphertexts (every {}th), {}", cut, s.rule),
            total: (s.total + cut - 1) / cut,
            gen: Box::new(move |i| {
                let (c, _) = par.enc(&keys[0].pk, &g(i * cut));
                DecIn { sk: keys[0].sk.clone(), ct: c }
            }),
        });
    }
    let u = unit.clone();
    v.push(sp("honest.unit_key", "f=1 key, r=+-x^i for every i", 2 * d as u64, move |i| {
        let (c, _) = par.enc(&u.pk, &seed_for_rm(par, &onehot(&par, i), &m_of(par, i)));
        DecIn { sk: u.sk.clone(), ct: c }
    }));
    let nk = if q { 2 } else { 8 };
    let ek: std::sync::Arc<Vec<Keys>> = std::sync::Arc::new((0..nk).map(|j| extremal_key(par, j)).collect());
    v.push(sp("honest.extremal", format!("{} keys x the messages that maximise |coefficient k of rG+mf|, every k, both signs", nk), nk * 2 * n as u64, move |i| {
        let key = &ek[(i % nk) as usize];
        let i = i / nk;
        let (r, m) = extremal_rm(par, key, (i / 2) as usize, i % 2 == 1);
        let (c, _) = par.enc(&key.pk, &seed_for_rm(par, &r, &m));
        DecIn { sk: key.sk.clone(), ct: c }
    }));

    // structured keys x structured messages
    let msgs: std::sync::Arc<Vec<Vec<u8>>> = std::sync::Arc::new(corner_seeds(par));
    let nm = msgs.len() as u64;
    let nf = if q { 6 } else { 28 };
    let ck: std::sync::Arc<Vec<Keys>> = std::sync::Arc::new(corner_keys(par, nf));
    let nck = ck.len() as u64;
    v.push(sp("honest.grid", format!("{} structured keys x every pair of structured (r, m)", nck), nck * nm, move |i| {
        let key = &ck[(i / nm) as usize];
        let (c, _) = par.enc(&key.pk, &msgs[(i % nm) as usize]);
        DecIn { sk: key.sk.clone(), ct: c }
    }));

    // dishonest: manipulated encodings
    let h = honest.clone();
    let nf = if q { 1 } else { 4 };
    v.push(sp("flip1", format!("every single-bit change of {} honest ciphertexts", nf), nf * bits, move |i| {
        let (sk, mut ct) = h((i / bits) as usize, 7);
        let b = i % bits;
        ct[(b / 8) as usize] ^= 1 << (b % 8);
        DecIn { sk, ct }
    }));
    let h = honest.clone();
    v.push(sp("padding", "every non-zero value of the padding bits (and of the whole last byte) of 64 honest ciphertexts", 64 * 255, move |i| {
        let (sk, mut ct) = h((i % 4) as usize, i / 255 % 64);
        let l = ct.len();
        ct[l - 1] ^= (i % 255 + 1) as u8;
        DecIn { sk, ct }
    }));
    let h = honest.clone();
    let bl = par.q_bytes() as u64;
    if !q {
        let h2 = honest.clone();
        v.push(sp("subst", "every value of every second byte and of the last 16 bytes of an honest ciphertext", (bl + 16) / 2 * 255, move |i| {
            let (sk, mut ct) = h2(1, 3);
            let l = ct.len();
            let p = 2 * (i / 255) as usize;
            ct[if p < l { p } else { l - 1 - (p - l) }] ^= (i % 255 + 1) as u8;
            DecIn { sk, ct }
        }));
        let h3 = honest.clone();
        v.push(sp("flip2", "every pair of changed bits at distance 1..13 of an honest ciphertext", bits * 13, move |i| {
            let (sk, mut ct) = h3(2, 5);
            let (a, b) = (i / 13, (i / 13 + 1 + i % 13) % bits);
            ct[(a / 8) as usize] ^= 1 << (a % 8);
            ct[(b / 8) as usize] ^= 1 << (b % 8);
            DecIn { sk, ct }
        }));
    }
    v.push(sp("swap", "two neighbouring bytes exchanged, truncated to zeros from byte i, complemented from byte i", 3 * bl, move |i| {
        let (sk, mut ct) = h(3, 9);
        let p = (i / 3) as usize;
        let l = ct.len();
        match i % 3 {
            0 => ct.swap(p, (p + 1) % l),
            1 => ct[p..].iter_mut().for_each(|x| *x = 0),
            _ => ct[p..].iter_mut().for_each(|x| *x ^= 0xff),
        }
        DecIn { sk, ct }
    }));
    let k2 = keys.clone();
    v.push(sp("foreign", "honest ciphertexts of one key decapsulated under another", 12 * 16, move |i| {
        let (a, b) = ((i % 4) as usize, ((i + 1 + i / 4 % 3) % 4) as usize);
        let (c, _) = par.enc(&k2[a].pk, &stream(i, par.seed_bytes()));
        DecIn { sk: k2[b].sk.clone(), ct: c }
    }));
    let k2 = keys.clone();
    v.push(sp("const", "all ciphertext bytes equal, every value", 256, move |i| DecIn { sk: k2[0].sk.clone(), ct: vec![i as u8; par.q_bytes()] }));
    let k2 = keys.clone();
    v.push(sp("bit1", "ciphertexts with exactly one bit set", bits, move |i| {
        let mut ct = vec![0u8; par.q_bytes()];
        ct[(i / 8) as usize] |= 1 << (i % 8);
        DecIn { sk: k2[1].sk.clone(), ct }
    }));
    let k2 = keys.clone();
    v.push(sp("arbitrary", "dense ciphertext bytes", if q { 500 } else { 20_000 }, move |i| DecIn { sk: k2[(i % 4) as usize].sk.clone(), ct: stream(i + 50_000, par.q_bytes()) }));

    // dishonest: correctly encrypted values outside the message space
    let bad = std::sync::Arc::new(bad_values(&par, t));
    let nb = bad.len() as u64;
    let b2 = bad.clone();
    let u = unit.clone();
    let step = if q { 1 } else if par.hrss { 19 } else if par.logq > 11 { 11 } else { 5 };
    v.push(sp("r.unit", format!("f=1 key, sparse r with one coefficient out of range: every {}. position x {} values", step, nb), nb * ((d as u64 + step - 1) / step), move |i| {
        let p = ((i / nb) * step + (i % nb) % step) as usize % d;
        let mut r = sparse_r(par, p);
        r[p] = b2[(i % nb) as usize];
        let m = m_of(par, i % 17);
        DecIn { sk: u.sk.clone(), ct: craft(par, &u.h, &r, &m) }
    }));
    let k2 = keys.clone();
    v.push(sp("r.real", "dense honest keys, dense r with one coefficient 2, -2, 3, -3, 4 or -4: every position", 6 * d as u64, move |i| {
        let key = &k2[(i % 4) as usize];
        let p = (i / 6) as usize;
        let (rt, m) = par.sample_rm(&stream(i, par.seed_bytes()));
        let mut r: Vec<i32> = rt.iter().map(|&x| [0, 1, -1][x as usize]).collect();
        r[p] = [2, -2, 3, -3, 4, -4][(i % 6) as usize];
        DecIn { sk: key.sk.clone(), ct: craft(par, &key.h, &r, &m) }
    }));
    let u = unit.clone();
    v.push(sp("r.two", "f=1 key, two coefficients out of range with sum, difference or both powers of two cancelling: every position", 12 * d as u64, move |i| {
        let p = (i / 12) as usize;
        let (x, y) = [(2, -2), (2, 2), (-2, -2), (3, -3), (4, -4), (8, -8), (-2, 2), (5, -4), (2, -1), (1, 2), (7, -7), (16, 16)][(i % 12) as usize];
        let mut r = sparse_r(par, p + 1);
        r[p] = x;
        r[(p + 1 + (i as usize % 97)) % d] = y;
        DecIn { sk: u.sk.clone(), ct: craft(par, &u.h, &r, &m_of(par, i % 13)) }
    }));
    let u = unit.clone();
    v.push(sp("r.run", "f=1 key, r constant 2, -2, 3, -3, 4, -4, 6 or 8 on the first k positions: every k", 8 * d as u64, move |i| {
        let mut r = vec![0i32; n];
        r[..=(i / 8) as usize].iter_mut().for_each(|x| *x = [2, -2, 3, -3, 4, -4, 6, 8][(i % 8) as usize]);
        DecIn { sk: u.sk.clone(), ct: craft(par, &u.h, &r, &m_of(par, i % 13)) }
    }));
    // the intermediate product c*f takes chosen values
    let half = par.q() as i32 / 2;
    let us: Vec<i32> = vec![1, -1, 2, -2, 3, half - 1, -half, 1 - half, half / 2, 1 - half / 2];
    let ck2: std::sync::Arc<Vec<Keys>> = std::sync::Arc::new(corner_keys(par, if q { 8 } else { 56 }));
    let per = us.len() as u64 * 4;
    v.push(sp("cf.target", "structured keys x ciphertexts for which c*f is constant, alternating, one-sided or of period 3 with 10 values", ck2.len() as u64 * per, move |i| {
        let key = &ck2[(i / per) as usize];
        let x = us[(i / 4 % us.len() as u64) as usize];
        let mut a: P = (0..n)
            .map(|p| match i % 4 {
                0 => x,
                1 => [x, -x][p % 2],
                2 => [x, 0][(p >= d / 2) as usize],
                _ => [x, 0, -x][p % 3],
            } as u16)
            .collect();
        let s = a[..d].iter().fold(0u16, |s, y| s.wrapping_add(*y));
        a[d] = s.wrapping_neg();
        let finv = par.inv(&par.trits_to_q(&key.f)).unwrap();
        DecIn { sk: key.sk.clone(), ct: par.pack_q(&par.sum_zero(&par.mod_phi(&par.mul(&a, &finv)))) }
    }));
    let k2 = keys.clone();
    let c2: std::sync::Arc<Vec<Keys>> = std::sync::Arc::new(corner_keys(par, 12));
    v.push(sp("special", "the public key, 1/h, the packed f or f3, the rejection key or an honest ciphertext's negation given as ciphertext; rejection key equal to the start of the ciphertext or of f", 16 * 8, move |i| {
        let key = if i / 8 < 4 { &k2[(i / 8) as usize] } else { &c2[(i / 8) as usize - 4] };
        let l = par.q_bytes();
        let pad = |b: &[u8]| -> Vec<u8> { (0..l).map(|p| b[p % b.len()] & if p == l - 1 { 0 } else { 0xff }).collect() };
        let t = par.tri_bytes();
        let mut sk = key.sk.clone();
        let o = sk.len() - 32;
        let (hon, _) = par.enc(&key.pk, &stream(i, par.seed_bytes()));
        let ct = match i % 8 {
            0 => key.pk.clone(),
            1 => sk[2 * t..2 * t + l].to_vec(),
            2 => pad(&sk[..t]),
            3 => pad(&sk[t..2 * t]),
            4 => pad(&sk[o..]),
            5 => {
                let c: P = par.unpack_sum_zero(&hon).iter().map(|x| x.wrapping_neg() & par.mask()).collect();
                par.pack_q(&c)
            }
            6 => {
                sk[o..].copy_from_slice(&hon[..32]);
                let mut c = hon;
                c[40] ^= 1;
                c
            }
            _ => {
                let f32b = sk[..32].to_vec();
                sk[o..].copy_from_slice(&f32b);
                let mut c = hon;
                c[l / 2] ^= 0x10;
                c
            }
        };
        DecIn { sk, ct }
    }));
    let u = unit.clone();
    let b3 = bad.clone();
    v.push(sp("r.all", "f=1 key, r constant v on every k-th position", nb * 3, move |i| {
        let mut r = vec![0i32; n];
        let k = [d, d / 2, d / 3][(i % 3) as usize];
        for p in (0..d).step_by(k) {
            r[p] = b3[(i / 3) as usize];
        }
        DecIn { sk: u.sk.clone(), ct: craft(par, &u.h, &r, &m_of(par, i % 11)) }
    }));
    if !par.hrss {
        let w = par.weight();
        let mk = move |a: usize, b: usize, rot: usize| -> Vec<u8> {
            let mut m = vec![0u8; n];
            for i in 0..a + b {
                m[(i + rot) % d] = if i < a { 1 } else { 2 };
            }
            m
        };
        let mut grid: Vec<(usize, usize)> = vec![];
        for a in 0..=d {
            for b in 0..=d - a {
                let near = a + 12 > w / 2 && a < w / 2 + 12 && b + 12 > w / 2 && b < w / 2 + 12;
                let axis = a == w / 2 || b == w / 2 || a + b == w || a == b || a == 0 || b == 0 || a + b == d;
                let pow = (a ^ (w / 2)).is_power_of_two() && (b ^ (w / 2)).is_power_of_two();
                if near || axis || pow || (if q { a % 24 == 0 && b % 24 == 0 } else { a % 2 == 0 || b % 3 == 0 }) {
                    grid.push((a, b));
                }
            }
        }
        let grid = std::sync::Arc::new(grid);
        let u = unit.clone();
        let g2 = grid.clone();
        v.push(sp("m.grid", "f=1 key, m with a coefficients +1 and b coefficients -1 over a grid of (a,b)", grid.len() as u64, move |i| {
            let (a, b) = g2[i as usize];
            DecIn { sk: u.sk.clone(), ct: craft(par, &u.h, &vec![0; n], &mk(a, b, i as usize * 13)) }
        }));
        let k2 = keys.clone();
        v.push(sp("m.real", "dense honest keys, m of weight off by one or two, or with one sign changed: every position", 6 * d as u64, move |i| {
            let key = &k2[(i % 4) as usize];
            let (rt, mut m) = par.sample_rm(&stream(i, par.seed_bytes()));
            let p = (i / 6) as usize;
            match i % 6 {
                0 => m[p] = (m[p] + 1) % 3,
                1 => m[p] = (m[p] + 2) % 3,
                2 => {
                    // balanced but too heavy: two zeros become +1 and -1
                    let z: Vec<usize> = (0..d).map(|x| (x + p) % d).filter(|&x| m[x] == 0).take(2).collect();
                    if z.len() == 2 {
                        m[z[0]] = 1;
                        m[z[1]] = 2;
                    }
                }
                3 => {
                    // balanced but too light
                    let a = (0..d).map(|x| (x + p) % d).find(|&x| m[x] == 1).unwrap();
                    let b = (0..d).map(|x| (x + p) % d).find(|&x| m[x] == 2).unwrap();
                    m[a] = 0;
                    m[b] = 0;
                }
                4 => {
                    // right weight, wrong balance (sum shifted by 2)
                    let a = (0..d).map(|x| (x + p) % d).find(|&x| m[x] == 1).unwrap();
                    m[a] = 2;
                }
                _ => {
                    let z = (0..d).map(|x| (x + p) % d).find(|&x| m[x] == 0).unwrap();
                    m[z] = 1;
                }
            }
            let r: Vec<i32> = rt.iter().map(|&x| [0, 1, -1][x as usize]).collect();
            DecIn { sk: key.sk.clone(), ct: craft(par, &key.h, &r, &m) }
        }));
        let u = unit.clone();
        v.push(sp("m.window", "f=1 key, honest m with every ternary pattern written over 5 positions", 243 * 20, move |i| {
            let mut m = m_of(par, i % 7);
            let s = (i / 243) as usize * (d - 5) / 19;
            let p = window(&par, 0, 5, i % 243);
            m[s..s + 5].copy_from_slice(&p[..5]);
            DecIn { sk: u.sk.clone(), ct: craft(par, &u.h, &sparse_r(par, i as usize), &m) }
        }));
    }
    let k2 = keys.clone();
    v.push(sp("prf.const", "all bytes of the rejection key equal, every value x {padded, flipped} ciphertext", 512, move |i| {
        let mut sk = k2[0].sk.clone();
        let o = sk.len() - 32;
        sk[o..].iter_mut().for_each(|x| *x = (i / 2) as u8);
        let (mut ct, _) = par.enc(&k2[0].pk, &stream(8, par.seed_bytes()));
        if i % 2 == 0 {
            *ct.last_mut().unwrap() ^= 0x80;
        } else {
            ct[5] ^= 1;
        }
        DecIn { sk, ct }
    }));
    // rejection key sweeps, accepted and rejected
    let k2 = keys.clone();
    v.push(sp("prf", "rejection key with every single bit set / cleared x {honest, padded, flipped} ciphertext", 512 * 3, move |i| {
        let mut sk = k2[0].sk.clone();
        let o = sk.len() - 32;
        for x in sk[o..].iter_mut() {
            *x = if i % 2 == 0 { 0 } else { 0xff };
        }
        let b = (i / 2 % 256) as usize;
        sk[o + b / 8] ^= 1 << (b % 8);
        let (mut ct, _) = par.enc(&k2[0].pk, &stream(8, par.seed_bytes()));
        match i / 512 {
            0 => {}
            1 => *ct.last_mut().unwrap() |= 0x80,
            _ => ct[5] ^= 1,
        }
        DecIn { sk, ct }
    }));
    v
}

/// public keys for encapsulation: bit patterns, value sweeps, padding, monomials
pub fn pk_spaces(par: Par, t: Tier) -> Vec<Space<EncIn>> {
    let q = t == Tier::Quick;
    let n = par.n;
    let d = par.deg();
    let bits = par.q_bytes() as u64 * 8;
    let qq = par.q() as u64;
    let keys: std::sync::Arc<Vec<Keys>> = std::sync::Arc::new(model_keys(par, 2));
    let mut v: Vec<Space<EncIn>> = vec![];
    let rsel = move |i: u64| -> Vec<u8> {
        // r = 1 + x exposes every coefficient of h, including the derived top one
        let mut r = vec![0u8; n];
        r[0] = 1;
        r[1] = 1;
        [iid_seed(&par, &r), half2(&par, i % 5)].concat()
    };
    v.push(sp("pk.bit", "public keys with one bit set / one bit cleared, every bit", 2 * bits, move |i| {
        let mut pk = vec![if i % 2 == 0 { 0u8 } else { 0xff }; par.q_bytes()];
        pk[(i / 16) as usize] ^= 1 << (i / 2 % 8);
        EncIn { pk, seed: rsel(i) }
    }));
    let kk = keys.clone();
    v.push(sp("pk.flip", "every single-bit change of an honest public key, dense r", if q { bits } else { 2 * bits }, move |i| {
        let mut pk = kk[(i / bits) as usize].pk.clone();
        let b = i % bits;
        pk[(b / 8) as usize] ^= 1 << (b % 8);
        EncIn { pk, seed: stream(i % 3, par.seed_bytes()) }
    }));
    v.push(sp("pk.val", "q public keys in which every coefficient takes every value once", qq, move |i| {
        let h: P = (0..n).map(|p| ((i as usize + p * 5) as u16) & par.mask()).collect();
        EncIn { pk: par.pack_q(&h), seed: rsel(i) }
    }));
    let kk = keys.clone();
    let ck: std::sync::Arc<Vec<Keys>> = std::sync::Arc::new(corner_keys(par, 14));
    v.push(sp("pk.special", "h = 0, +-1, +-x^(n-1), constant, 1/h, a ciphertext, structured keys; structured and dense r", 32 * 8, move |i| {
        let (a, s) = (i / 8, i % 8);
        let mut h = vec![0u16; n];
        let pk = match a {
            0 => vec![0; par.q_bytes()],
            1 | 2 => {
                h[0] = [1, par.mask()][a as usize - 1];
                par.pack_q(&h)
            }
            3 | 4 => {
                h[d - 1] = [1, par.mask()][a as usize - 3];
                par.pack_q(&h)
            }
            5..=8 => par.pack_q(&vec![[1, par.mask(), par.mask() / 2, par.mask() / 2 + 1][a as usize - 5]; n]),
            9 | 10 => kk[a as usize - 9].sk[2 * par.tri_bytes()..][..par.q_bytes()].to_vec(),
            11 | 12 => par.enc(&kk[a as usize - 11].pk, &stream(a, par.seed_bytes())).0,
            13..=17 => par.pack_q(&(0..n).map(|p| [1u16, par.mask(), 0, 2, par.mask() / 2][(p + a as usize) % 5]).collect::<P>()),
            _ => ck[(a as usize - 18) % ck.len()].pk.clone(),
        };
        let cs = corner_iid(&par);
        let seed = if s < 5 { [iid_seed(&par, &cs[[0, 4, 6, 8, 10][s as usize]]), half2(&par, s)].concat() } else { stream(i, par.seed_bytes()) };
        EncIn { pk, seed }
    }));
    v.push(sp("pk.const", "all public-key bytes equal, every value", 256, move |i| EncIn { pk: vec![i as u8; par.q_bytes()], seed: stream(i, par.seed_bytes()) }));
    let kk = keys.clone();
    v.push(sp("pk.last", "every value of the last byte (with its padding bits) of honest public keys", 512, move |i| {
        let mut pk = kk[(i / 256) as usize].pk.clone();
        *pk.last_mut().unwrap() = i as u8;
        EncIn { pk, seed: stream(i, par.seed_bytes()) }
    }));
    let js: Vec<usize> = if q { vec![0, 1, 2, 3, 7, 8, 15, 16, 31, 32, d / 2, d / 2 + 1, d - 9, d - 8, d - 2, d - 1] } else { (0..d).collect() };
    let nj = js.len() as u64;
    v.push(sp("pk.mono", format!("r=x^i for every i, h=q/2-1 at position j for {} positions j", nj), nj * d as u64, move |i| {
        let mut h = vec![0u16; n];
        h[js[(i % nj) as usize]] = par.mask() >> 1;
        let mut r = vec![0u8; n];
        r[(i / nj) as usize] = 1;
        EncIn { pk: par.pack_q(&h), seed: [iid_seed(&par, &r), half2(&par, 1)].concat() }
    }));
    v.push(sp("pk.arbitrary", "dense public-key bytes, dense seed", if q { 500 } else { 20_000 }, move |i| EncIn { pk: stream(i + 1_000_000, par.q_bytes()), seed: stream(i, par.seed_bytes()) }));
    v
}

/// arbitrary, not necessarily well-formed, secret keys (totality only)
pub fn wild_dec_spaces(par: Par, t: Tier) -> Vec<Space<DecIn>> {
    let q = t == Tier::Quick;
    let mut v: Vec<Space<DecIn>> = vec![];
    v.push(sp("wild.const", "all secret-key bytes equal x all ciphertext bytes equal: 256 x 8 values", 256 * 8, move |i| DecIn {
        sk: vec![(i / 8) as u8; par.sk_bytes()],
        ct: vec![[0, 1, 0x55, 0x7f, 0x80, 0xaa, 0xfe, 0xff][(i % 8) as usize]; par.q_bytes()],
    }));
    let k = std::sync::Arc::new(model_keys(par, 1));
    let l = par.sk_bytes() as u64;
    let k2 = k.clone();
    v.push(sp("wild.byte", "one byte of an honest secret key replaced by 0, 0xf2, 0xf3, 0xff: every position", 4 * l, move |i| {
        let mut sk = k2[0].sk.clone();
        sk[(i / 4) as usize] = [0, 0xf2, 0xf3, 0xff][(i % 4) as usize];
        let (ct, _) = par.enc(&k2[0].pk, &stream(3, par.seed_bytes()));
        DecIn { sk, ct }
    }));
    v.push(sp("wild.dense", "dense secret-key bytes, dense ciphertext bytes", if q { 500 } else { 20_000 }, move |i| DecIn { sk: stream(i, par.sk_bytes()), ct: stream(i + 7, par.q_bytes()) }));
    v
}
