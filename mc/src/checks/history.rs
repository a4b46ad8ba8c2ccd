//! C10: no hidden state. Every operation of a small alphabet of near-identical inputs is first
//! run alone in a fresh process; then every bounded history, nesting at the RNG seam and
//! two/three-thread interleaving at that seam must reproduce exactly those results.
use crate::explore::{hex, vio, Check, Explorer, Rec};
use crate::model::ntru::{Keys, Par};
use crate::real;
use crate::spaces::*;
use ntrust_native::{crypto_kem_dec, crypto_kem_enc, crypto_kem_keypair, RNGState};
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone)]
pub enum Op {
    K(Vec<u8>),          // script
    E(Vec<u8>, Vec<u8>), // pk, script
    D(Vec<u8>, Vec<u8>), // ct, sk
    F(Box<Op>, usize, bool), // the RNG fails at this request: error or panic
}

/// inputs that differ from a base in one byte (first, middle, last) or two exchanged bytes
pub fn alphabet(par: Par) -> Vec<Op> {
    let ks = model_keys(par, 2);
    let seed = |j| stream(j, par.seed_bytes());
    let (ct, _) = par.enc(&ks[0].pk, &seed(1));
    let (ct2, _) = par.enc(&ks[0].pk, &seed(2));
    let l = par.q_bytes();
    let ch = |v: &[u8], p: usize| {
        let mut v = v.to_vec();
        v[p] ^= 1;
        v
    };
    let sw = |v: &[u8]| {
        // exchange two different bytes: sums and xors of bytes stay the same
        let mut v = v.to_vec();
        let a = v.len() / 3;
        let b = (a + 1..v.len() - 40).find(|&b| v[b] != v[a]).unwrap();
        v.swap(a, b);
        v
    };
    let kscript = |j, p: u64| [seed(j), prf_of(p).to_vec()].concat();
    // single bytes changed at further places, the parts of the secret key one by one
    let t = par.tri_bytes();
    let mut extra = vec![];
    for p in [8, 15, 16, 31, 32, 63, 64, l / 4, 3 * l / 4, l - 33, l - 2] {
        extra.push(Op::E(ch(&ks[0].pk, p), seed(1)));
    }
    for p in [16, 32, t / 2, t, t + t / 2, 2 * t - 1, 2 * t, 2 * t + l - 1, 2 * t + l, 2 * t + l + 16] {
        extra.push(Op::D(ct.clone(), ch(&ks[0].sk, p)));
        extra.push(Op::D(ch(&ct, 0), ch(&ks[0].sk, p)));
    }
    for p in [8, 16, 32, l / 4, l - 2] {
        extra.push(Op::D(ch(&ct, p), ks[0].sk.clone()));
    }
    for p in [16, 32, par.iid_bytes() - 1, par.iid_bytes(), par.seed_bytes() - 1] {
        extra.push(Op::K(ch(&kscript(1, 1), p)));
        extra.push(Op::E(ks[0].pk.clone(), ch(&seed(1), p)));
    }
    let mut v = vec![
        Op::E(ks[0].pk.clone(), seed(1)),
        Op::E(ch(&ks[0].pk, 0), seed(1)),
        Op::E(ch(&ks[0].pk, l / 2), seed(1)),
        Op::E(ch(&ks[0].pk, l - 1), seed(1)),
        Op::E(sw(&ks[0].pk), seed(1)),
        Op::E(ks[0].pk.clone(), seed(2)),
        Op::E(ks[0].pk.clone(), ch(&seed(1), par.seed_bytes() - 1)),
        Op::D(ct.clone(), ks[0].sk.clone()),
        Op::D(ct2, ks[0].sk.clone()),
        Op::D(ch(&ct, 0), ks[0].sk.clone()),
        Op::D(ch(&ct, l / 2), ks[0].sk.clone()),
        Op::D(ch(&ct, l - 1), ks[0].sk.clone()),
        Op::D(ct.clone(), ks[1].sk.clone()),
        Op::D(ct.clone(), ch(&ks[0].sk, 2 * par.tri_bytes() + l / 2)),
        Op::D(ch(&ct, 0), ch(&ks[0].sk, ks[0].sk.len() - 1)),
        Op::K(kscript(1, 1)),
        Op::K(kscript(1, 2)),
        Op::K(ch(&kscript(1, 1), 0)),
    ];
    // wildly different sizes of intermediate values
    v.push(Op::E(vec![0; l], vec![0; par.seed_bytes()]));
    v.push(Op::D(vec![0xff; l], ks[0].sk.clone()));
    v.extend(extra);
    for p in [false, true] {
        v.push(Op::F(Box::new(Op::E(ks[0].pk.clone(), seed(1))), 0, p));
        v.push(Op::F(Box::new(Op::K(kscript(1, 1))), 0, p));
        v.push(Op::F(Box::new(Op::K(kscript(1, 1))), 1, p));
    }
    v
}

/// a sequence of distinct inputs for cyclic histories
fn cyclic(par: Par, k: &Keys, kind: usize, j: usize) -> Op {
    let mut tail = vec![0u8; par.q_bytes()];
    tail[par.q_bytes() - 40..][..8].copy_from_slice(&(j as u64).to_le_bytes());
    let seed = stream(1, par.seed_bytes());
    let ct = || par.enc(&k.pk, &seed).0;
    let mix = |v: &[u8], o: usize| -> Vec<u8> {
        let mut v = v.to_vec();
        v.iter_mut().skip(o).zip(&tail).for_each(|(a, b)| *a ^= b);
        v
    };
    match kind {
        0 => Op::E(mix(&k.pk, 0), seed),
        1 => Op::D(mix(&ct(), 0), k.sk.clone()),
        2 => Op::D(ct(), mix(&k.sk, 2 * par.tri_bytes())),
        _ => Op::E(k.pk.clone(), mix(&seed, 0)),
    }
}

struct Bufs {
    pk: [u8; real::PK],
    sk: [u8; real::SK],
    ct: [u8; real::CT],
    k: [u8; real::SS],
    pk_in: [u8; real::PK],
    sk_in: [u8; real::SK],
    ct_in: [u8; real::CT],
}
impl Bufs {
    fn new(d: u8) -> Box<Bufs> {
        Box::new(Bufs { pk: [d; real::PK], sk: [d; real::SK], ct: [d; real::CT], k: [d; real::SS], pk_in: [d; real::PK], sk_in: [d; real::SK], ct_in: [d; real::CT] })
    }
}

fn put(dst: &mut [u8], src: &[u8]) {
    let l = dst.len().min(src.len());
    dst[..l].copy_from_slice(&src[..l]);
}

fn script_of(op: &Op) -> Vec<u8> {
    match op {
        Op::K(s) | Op::E(_, s) => s.clone(),
        Op::F(o, ..) => script_of(o),
        _ => vec![],
    }
}

fn rng_of(op: &Op) -> real::ScriptRng {
    let mut r = real::ScriptRng::new(script_of(op));
    if let Op::F(_, at, panics) = op {
        *(if *panics { &mut r.panic_at } else { &mut r.fail_at }) = Some(*at);
    }
    r
}

/// run with the given buffers (contents left by whatever ran before); result as one string
fn exec(op: &Op, b: &mut Bufs, rng: &mut impl RNGState) -> String {
    let show = |r: std::thread::Result<Result<(), Box<dyn Error>>>| match r {
        Ok(Ok(())) => "Ok".to_string(),
        Ok(Err(e)) => format!("Err {}", e),
        Err(_) => "panic".into(),
    };
    match op {
        Op::K(_) => {
            let r = catch_unwind(AssertUnwindSafe(|| crypto_kem_keypair(&mut b.pk, &mut b.sk, rng)));
            format!("{} {} {}", show(r), hex(&b.pk), hex(&b.sk))
        }
        Op::E(pk, _) => {
            put(&mut b.pk_in, pk);
            let r = catch_unwind(AssertUnwindSafe(|| crypto_kem_enc(&mut b.ct, &mut b.k, &b.pk_in, rng)));
            let m = if b.pk_in[..] == pk[..b.pk_in.len().min(pk.len())] { "" } else { " pk modified" };
            format!("{} {} {}{}", show(r), hex(&b.ct), hex(&b.k), m)
        }
        Op::D(ct, sk) => {
            put(&mut b.ct_in, ct);
            put(&mut b.sk_in, sk);
            let r = catch_unwind(AssertUnwindSafe(|| crypto_kem_dec(&mut b.k, &b.ct_in, &b.sk_in)));
            let m = if b.ct_in[..] == ct[..b.ct_in.len().min(ct.len())] && b.sk_in[..] == sk[..b.sk_in.len().min(sk.len())] { "" } else { " input modified" };
            format!("{} {}{}", show(r), hex(&b.k), m)
        }
        // only how it ended: the buffers are unspecified
        Op::F(o, ..) => exec(o, b, rng).split(' ').next().unwrap().to_string(),
    }
}

/// entry point of the fresh processes
pub fn single(par: Par, i: usize) {
    // from 1000 on: the cyclic histories
    let op = &if i >= 1000 { cyclic(par, &model_keys(par, 1)[0], i / 1000 - 1, i % 1000) } else { alphabet(par).swap_remove(i) };
    println!("{}", exec(op, &mut Bufs::new(0), &mut rng_of(op)));
}

fn cmp(rec: &mut Rec, base: &[String], i: usize, got: &str, ctx: &str) -> Check {
    rec.transitions += 1;
    if got != base[i] {
        let p = got.bytes().zip(base[i].bytes()).position(|(a, b)| a != b).unwrap_or(0);
        let cut = |s: &str| s[p.min(s.len())..(p + 64).min(s.len())].to_string();
        return vio(format!("{}: operation {} gives a different result than alone in a fresh process (…{} instead of …{})", ctx, i, cut(got), cut(&base[i])), &[]);
    }
    Ok(())
}

struct NestRng<'a, F: FnMut()> {
    script: real::ScriptRng,
    at: usize,
    hook: &'a mut F,
}
impl<F: FnMut()> RNGState for NestRng<'_, F> {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        if self.script.requests.len() == self.at {
            (self.hook)();
        }
        self.script.randombytes(x)
    }
    fn randombytes_init(&mut self, e: [u8; 48]) {
        self.script.randombytes_init(e)
    }
}

/// turn-taking between threads: thread t runs only while schedule[pos] == t
struct Turn {
    m: Mutex<(Vec<usize>, usize)>,
    cv: Condvar,
}
impl Turn {
    fn wait(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        while g.1 < g.0.len() && g.0[g.1] != t {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn pass(&self) {
        self.m.lock().unwrap().1 += 1;
        self.cv.notify_all();
    }
}
struct TurnRng {
    script: real::ScriptRng,
    turn: Arc<Turn>,
    t: usize,
}
impl RNGState for TurnRng {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        self.turn.pass();
        self.turn.wait(self.t);
        self.script.randombytes(x)
    }
    fn randombytes_init(&mut self, e: [u8; 48]) {
        self.script.randombytes_init(e)
    }
}

fn segments(op: &Op) -> usize {
    match op {
        Op::K(_) => 3,
        Op::E(..) => 2,
        Op::D(..) => 1,
        Op::F(_, at, _) => at + 2,
    }
}

/// all merges of the threads' segment sequences
fn schedules(mut left: Vec<usize>) -> Vec<Vec<usize>> {
    if left.iter().all(|&x| x == 0) {
        return vec![vec![]];
    }
    let mut out = vec![];
    for t in 0..left.len() {
        if left[t] > 0 {
            left[t] -= 1;
            for mut s in schedules(left.clone()) {
                s.insert(0, t);
                out.push(s);
            }
            left[t] += 1;
        }
    }
    out
}

fn run_schedule(ops: &[&Op], sched: Vec<usize>) -> Vec<String> {
    let turn = Arc::new(Turn { m: Mutex::new((sched, 0)), cv: Condvar::new() });
    std::thread::scope(|s| {
        let hs: Vec<_> = ops
            .iter()
            .enumerate()
            .map(|(t, op)| {
                let turn = turn.clone();
                s.spawn(move || {
                    let mut b = Bufs::new(t as u8);
                    let mut rng = TurnRng { script: rng_of(op), turn: turn.clone(), t };
                    turn.wait(t);
                    let r = exec(op, &mut b, &mut rng);
                    turn.pass();
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

pub fn c10(ex: &mut Explorer) {
    let par = ex.par;
    let ops = alphabet(par);
    let exe = std::env::current_exe().unwrap();
    let fresh = |i: usize| -> String {
        let o = std::process::Command::new(&exe).args(["single", &i.to_string()]).output().expect("fresh process");
        if !o.status.success() {
            eprintln!("fresh process for operation {} ended with {:?}", i, o.status);
            std::process::exit(70);
        }
        String::from_utf8(o.stdout).unwrap().trim_end().to_string()
    };
    let fresh_all = |is: Vec<usize>| -> Vec<String> {
        std::thread::scope(|s| {
            let hs: Vec<_> = is.chunks((is.len() + 7) / 8).map(|c| s.spawn(|| c.iter().map(|&i| fresh(i)).collect::<Vec<_>>())).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        })
    };
    let base: Vec<String> = fresh_all((0..ops.len()).collect());
    let na = ops.len() as u64;
    let cheap: Vec<usize> = (0..20).filter(|&i| !matches!(ops[i], Op::K(_))).collect();
    // histories of depth 2 over everything, depth 3 (4) over encapsulation and decapsulation
    let run_hist = |rec: &mut Rec, seq: &[usize], mode: u64| -> Check {
        // mode 0: the same buffers at the same addresses throughout; 1: buffers pre-filled anew
        let mut b = Bufs::new(0xc3);
        for (n, &i) in seq.iter().enumerate() {
            if mode == 1 {
                b = Bufs::new(n as u8 ^ 0x99);
            }
            let mut rng = rng_of(&ops[i]);
            let r = exec(&ops[i], &mut b, &mut rng);
            cmp(rec, &base, i, &r, &format!("history {:?} (buffers {})", &seq[..=n], if mode == 0 { "re-used" } else { "fresh, dirty" }))?;
        }
        rec.state(&[b"H", &[mode as u8], format!("{:?}", seq).as_bytes()]);
        Ok(())
    };
    let d1 = ex.by(2u32, 3);
    ex.space("history.2", "every history of 2 operations from the full alphabet, buffers re-used in place / fresh but dirty", 2 * na.pow(2), |i, rec| {
        run_hist(rec, &[(i / 2 % na) as usize, (i / 2 / na) as usize], i % 2)
    });
    if d1 == 3 {
        let some: Vec<usize> = (0..ops.len()).filter(|&i| i < 20 || i % 4 == 0).collect();
        let ns = some.len() as u64;
        ex.space("history.3", &format!("every history of 3 operations from {} of the alphabet, buffers re-used in place / fresh but dirty", ns), 2 * ns.pow(3), |i, rec| {
            let j = i / 2;
            run_hist(rec, &[j % ns, j / ns % ns, j / ns / ns].map(|x| some[x as usize]), i % 2)
        });
    }
    let nc = cheap.len() as u64;
    let d2 = ex.by(3u32, 4);
    ex.space("history.encdec", &format!("every history of {} encapsulations and decapsulations of near-identical inputs", d2), nc.pow(d2), |i, rec| {
        let mut j = i;
        let seq: Vec<usize> = (0..d2).map(|_| { let x = j % nc; j /= nc; cheap[x as usize] }).collect();
        run_hist(rec, &seq, 0)
    });
    // nesting at the RNG seam: outer operation waits in its RNG while an inner one runs
    let outers: Vec<(usize, usize)> = (0..ops.len()).flat_map(|i| (0..segments(&ops[i]) - 1).map(move |s| (i, s))).collect();
    let no = outers.len() as u64;
    ex.space("nested", "every operation run inside every RNG request of every operation", no * na, |i, rec| {
        let (o, at) = outers[(i / na) as usize];
        let inner = (i % na) as usize;
        let mut got = String::new();
        let mut b2 = Bufs::new(0x42);
        let mut hook = || {
            let mut rng = rng_of(&ops[inner]);
            got = exec(&ops[inner], &mut b2, &mut rng);
        };
        let mut b = Bufs::new(0x24);
        let mut rng = NestRng { script: rng_of(&ops[o]), at, hook: &mut hook };
        let r = exec(&ops[o], &mut b, &mut rng);
        rec.state(&[b"N", &[o as u8, at as u8, inner as u8]]);
        if got.is_empty() {
            rec.tag("request not made");
            return Ok(());
        }
        cmp(rec, &base, inner, &got, &format!("operation {} run while operation {} waits for its RNG", inner, o))?;
        cmp(rec, &base, o, &r, &format!("operation {} with operation {} run inside its RNG request", o, inner))
    });
    // two and three threads: every interleaving at the RNG seam
    let sel: Vec<usize> = (0..ops.len()).filter(|i| [0, 1, 4, 7, 9, 15, 17].contains(i) || matches!(ops[*i], Op::F(_, _, true))).collect();
    let ns = sel.len();
    let mut work: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for a in 0..ns {
        for b in 0..ns {
            let t = vec![sel[a], sel[b]];
            for s in schedules(t.iter().map(|&i| segments(&ops[i])).collect()) {
                work.push((t.clone(), s));
            }
        }
    }
    let tri: Vec<usize> = vec![0, 1, 9, 15];
    for &a in &tri {
        for &b in &tri {
            for &c in &tri {
                let keys = [a, b, c].iter().filter(|&&x| x == 15).count();
                if keys > 1 && (ex.quick() || keys > 2) {
                    continue;
                }
                let t = vec![a, b, c];
                for s in schedules(t.iter().map(|&i| segments(&ops[i])).collect()) {
                    work.push((t.clone(), s));
                }
            }
        }
    }
    ex.space("threads", "two and three threads: every interleaving of their segments between RNG requests", work.len() as u64, |i, rec| {
        let (t, s) = &work[i as usize];
        let o: Vec<&Op> = t.iter().map(|&x| &ops[x]).collect();
        let r = run_schedule(&o, s.clone());
        rec.state(&[b"T", format!("{:?}{:?}", t, s).as_bytes()]);
        for (n, x) in r.iter().enumerate() {
            cmp(rec, &base, t[n], x, &format!("threads running operations {:?} under schedule {:?}", t, s))?;
        }
        Ok(())
    });
    // a table of earlier inputs, of whatever size: n distinct inputs, again in order, then backwards
    let most = ex.by(96usize, 600);
    let key = &model_keys(par, 1)[0];
    let cyc: Vec<Vec<Op>> = (0..4).map(|k| (0..most).map(|j| cyclic(par, key, k, j)).collect()).collect();
    let cbase: Vec<Vec<String>> = (0..4).map(|k| fresh_all((0..most).map(|j| 1000 * (k + 1) + j).collect())).collect();
    ex.space("cycle", &format!("n distinct public keys / ciphertexts / secret keys / seeds, in order, again in order, then backwards: every n up to {}", most), 4 * most as u64, |i, rec| {
        let (k, n) = ((i % 4) as usize, (i / 4) as usize + 1);
        let mut b = Bufs::new(2);
        for j in (0..n).chain(0..n).chain((0..n).rev()) {
            rec.beat();
            let r = exec(&cyc[k][j], &mut b, &mut rng_of(&cyc[k][j]));
            cmp(rec, &cbase[k], j, &r, &format!("cyclic history of {} distinct inputs (kind {})", n, k))?;
        }
        rec.state(&[b"C", &i.to_le_bytes()]);
        Ok(())
    });
    // long histories: a counter or cache that changes behaviour late
    let reps = ex.by(70_000u64, 300_000);
    ex.space("long", &format!("histories of {} encapsulations / decapsulations / alternations on one thread, {} key generations", reps, reps / 60), 4, |i, rec| {
        let mut b = Bufs::new(1);
        let seq: &[usize] = [&[0usize, 1][..], &[7, 9], &[0, 7, 5, 11], &[15]][i as usize];
        let n = if i == 3 { reps / 60 } else { reps };
        let sc: Vec<Vec<u8>> = seq.iter().map(|&x| script_of(&ops[x])).collect();
        for j in 0..n {
            rec.beat();
            let x = j as usize % seq.len();
            let mut rng = real::ScriptRng::new(sc[x].clone());
            let r = exec(&ops[seq[x]], &mut b, &mut rng);
            cmp(rec, &base, seq[x], &r, &format!("call {} of a long history", j))?;
        }
        rec.state(&[b"L", &i.to_le_bytes()]);
        Ok(())
    });
}
