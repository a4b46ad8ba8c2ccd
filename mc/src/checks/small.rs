//! Exhaustive explicit-state exploration of the scheme model on the scaled-down instances
//! (n = 5, where 2 and 3 are primitive as in the published sets). The same generic model code
//! is compared with the implementation at the published sizes by the other spaces.
use crate::explore::{vio, Explorer};
use crate::model::ntru::{Keys, Par};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const HPS5: Par = Par { n: 5, logq: 5, hrss: false };
pub const HRSS5: Par = Par { n: 5, logq: 7, hrss: true };

fn ternaries(par: &Par) -> Vec<Vec<u8>> {
    (0..3usize.pow(par.deg() as u32))
        .map(|mut i| {
            let mut v = vec![0u8; par.n];
            for j in 0..par.deg() {
                v[j] = (i % 3) as u8;
                i /= 3;
            }
            v
        })
        .collect()
}

fn all_keys(par: &Par) -> Vec<Keys> {
    let t = ternaries(par);
    let ok = |v: &Vec<u8>| v.iter().any(|&x| x != 0) && (!par.hrss || par.correlation(v) >= 0);
    let mut ks = vec![];
    for f in t.iter().filter(|v| ok(v)) {
        for g in t.iter().filter(|v| if par.hrss { ok(v) } else { par.m_valid(v) }) {
            ks.push(par.keys_from(f, g, &[7; 32]).expect("invertible"));
        }
    }
    ks
}

fn messages(par: &Par) -> Vec<Vec<u8>> {
    ternaries(par).into_iter().filter(|v| par.m_valid(v)).collect()
}

/// only one variant process needs to do this work
fn mine(ex: &Explorer, par: &Par) -> bool {
    (ex.par.n == 509 && !par.hrss) || (ex.par.n == 701 && par.hrss)
}

/// every key x every r x every m: decryption returns (r, m)
pub fn agreement(ex: &mut Explorer) {
    for (par, name) in [(HPS5, "model.hps5"), (HRSS5, "model.hrss5")] {
        if !mine(ex, &par) {
            continue;
        }
        let keys = all_keys(&par);
        let rs = ternaries(&par);
        let ms = messages(&par);
        let cut = if par.hrss && ex.quick() { 13 } else { 1 };
        let n = (keys.len() as u64 + cut - 1) / cut;
        let (st, tr) = (AtomicU64::new(0), AtomicU64::new(0));
        ex.space(name, &format!("scaled-down instance n=5 q={}: {} of {} keys x {} r x {} m", par.q(), n, keys.len(), rs.len(), ms.len()), n, |i, _| {
            let k = &keys[(i * cut) as usize];
            for r in &rs {
                for m in &ms {
                    let ct = par.pack_q(&par.encrypt(r, m, &k.h));
                    let d = par.dec(&ct, &k.sk);
                    tr.fetch_add(2, Relaxed);
                    if !d.accept() || d.k != par.key_of(r, m) {
                        return vio("model: decryption failure", &[("r", r), ("m", m), ("sk", &k.sk)]);
                    }
                }
            }
            st.fetch_add((rs.len() * ms.len()) as u64, Relaxed);
            Ok(())
        });
        ex.model_states += st.load(Relaxed);
        ex.model_transitions += tr.load(Relaxed);
    }
}

/// every ciphertext string under a key: accepted iff it is one of the honest encryptions
pub fn accept_iff_honest(ex: &mut Explorer, reject_side: bool) {
    for (par, name) in [(HPS5, "model.hps5"), (HRSS5, "model.hrss5")] {
        if !mine(ex, &par) {
            continue;
        }
        let keys = all_keys(&par);
        let rs = ternaries(&par);
        let ms = messages(&par);
        let bits = 8 * par.q_bytes() as u32; // padding bits included
        let strings = 1u64 << bits;
        let nk: u64 = match (par.hrss, ex.quick()) {
            (false, true) => 1,
            (false, false) if reject_side => 3,
            (false, false) => 8,
            (true, true) => 1,
            (true, false) => 1,
        };
        // padding bits are the most significant ones of the index
        let lim = match (par.hrss, ex.quick()) {
            (false, true) => strings >> 3,
            (false, false) => strings,
            (true, true) => strings >> 11,
            (true, false) if reject_side => strings >> 7,
            (true, false) => strings >> 5,
        };
        let chunk = 1u64 << 12;
        let maps: Vec<(usize, HashMap<Vec<u8>, [u8; 32]>)> = (0..nk)
            .map(|j| {
                let ki = ((2 * j + 1) * keys.len() as u64 / (2 * nk)) as usize;
                let mut h = HashMap::new();
                for r in &rs {
                    for m in &ms {
                        h.insert(par.pack_q(&par.encrypt(r, m, &keys[ki].h)), par.key_of(r, m));
                    }
                }
                assert_eq!(h.len(), rs.len() * ms.len(), "encryption is injective");
                (ki, h)
            })
            .collect();
        let (tr, acc) = (AtomicU64::new(0), AtomicU64::new(0));
        ex.space(name, &format!("scaled-down instance n=5 q={}: {} keys x {} of {} ciphertext strings (padding included)", par.q(), nk, lim, strings), nk * lim / chunk, |i, _| {
            let (ki, map) = &maps[(i / (lim / chunk)) as usize];
            let sk = &keys[*ki].sk;
            let base = i % (lim / chunk) * chunk;
            for x in base..base + chunk {
                let ct = x.to_le_bytes()[..par.q_bytes()].to_vec();
                let d = par.dec(&ct, sk);
                tr.fetch_add(1, Relaxed);
                let good = match map.get(&ct) {
                    Some(k) => {
                        acc.fetch_add(1, Relaxed);
                        d.accept() && d.k == *k
                    }
                    None => !d.accept() && (!reject_side || d.k == d.reject_key),
                };
                if !good {
                    return vio("model: accepted set differs from the set of honest ciphertexts", &[("ct", &ct), ("sk", sk)]);
                }
            }
            Ok(())
        });
        if ex.only.is_none() && lim == strings && ex.violation.is_none() && ex.complete() {
            assert_eq!(acc.load(Relaxed), nk * (rs.len() * ms.len()) as u64);
        }
        ex.model_states += tr.load(Relaxed);
        ex.model_transitions += tr.load(Relaxed);
    }
}
