//! C17: operations act on nothing but their arguments.
use crate::explore::{vio, Check, Explorer, Rec};
use crate::real::{self, End, ScriptRng};
use crate::sealed;
use crate::spaces::*;
use ntrust_native::{AesState, RNGState};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn judge(rec: &mut Rec, what: &str, e: &End, hit: Option<String>, data: &[(&str, &[u8])]) -> Check {
    if let Some(h) = hit {
        return vio(format!("{} {}", what, h), data);
    }
    rec.tag(match e {
        End::Ok => "Ok",
        End::Err(_) => "Err",
        End::Panic(_) => "no result",
    });
    Ok(())
}

/// the seal itself: each kind of effect is noticed, and denied
fn self_test(ex: &mut Explorer) {
    ex.space("seal", "effects performed by the harness inside a seal: each is noticed, none takes place", 10, |i, rec| {
        let probe = std::env::temp_dir().join("verif-seal-probe");
        rec.state(&[b"seal", &i.to_le_bytes()]);
        let _ = sealed::seal(|| {
            catch_unwind(|| match i {
                0 => print!("."),
                1 => eprint!("."),
                2 => drop(std::env::var_os("HOME")),
                3 => drop(std::time::SystemTime::now()),
                4 => drop(std::time::Instant::now()),
                5 => drop(std::fs::File::create(std::env::temp_dir().join("verif-seal-probe"))),
                8 => drop(std::env::vars_os().count()),
                9 => drop(unsafe { std::arch::x86_64::_rdtsc() }),
                6 => drop(std::net::TcpStream::connect("127.0.0.1:1")),
                _ => drop(vec![0u8; 1 << 22]),
            })
        });
        let h = sealed::hit();
        if i == 0 {
            // the byte is still in the buffer of stdout: not the implementation's
            sealed::ON.store(false, std::sync::atomic::Ordering::SeqCst);
            let _ = std::io::Write::flush(&mut std::io::stdout());
            sealed::ON.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        if i == 9 && !sealed::TSC.load(std::sync::atomic::Ordering::Relaxed) {
            rec.tag("time stamp counter not trapped");
            return Ok(());
        }
        assert!(h.is_some() == (i != 7), "seal self test {}: {:?}", i, h);
        assert!(!probe.exists());
        Ok(())
    });
}

pub fn c17(ex: &mut Explorer) {
    let par = ex.par;
    sealed::ON.store(true, std::sync::atomic::Ordering::SeqCst);
    let threads = ex.threads;
    ex.threads = 1;
    self_test(ex);
    ex.threads = threads;
    if ex.violation.is_some() {
        return;
    }
    let keys = model_keys(par, 2);
    let q = ex.quick();
    let thin = move |t: u64, small: u64| -> u64 {
        if q {
            (t / small).max(1)
        } else if t > 100_000 {
            4
        } else {
            1
        }
    };
    for s in key_spaces(par, ex.tier) {
        let cut = thin(s.total, 300);
        ex.space(&format!("key.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            let (e, _, _, _) = rec.keypair(&x.seed, &x.prf);
            judge(rec, "key generation", &e, sealed::hit(), &[("seed", &x.seed), ("prf", &x.prf)])
        });
    }
    for s in rand_spaces(par, ex.tier) {
        let cut = thin(s.total, 3000);
        ex.space(&format!("enc.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            let pk = &keys[(i % 2) as usize].pk;
            let (e, _, _, _) = rec.enc(pk, &x);
            judge(rec, "encapsulation", &e, sealed::hit(), &[("pk", pk), ("seed", &x)])
        });
    }
    for s in pk_spaces(par, ex.tier) {
        let cut = thin(s.total, 2000);
        ex.space(&format!("enc.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            let (e, _, _, _) = rec.enc(&x.pk, &x.seed);
            judge(rec, "encapsulation", &e, sealed::hit(), &[("pk", &x.pk), ("seed", &x.seed)])
        });
    }
    for s in dec_spaces(par, ex.tier).into_iter().chain(wild_dec_spaces(par, ex.tier)) {
        let cut = thin(s.total, 2000);
        ex.space(&format!("dec.{}", s.name), &format!("{} (every {}th)", s.rule, cut), (s.total + cut - 1) / cut, |i, rec| {
            let x = (s.gen)(i * cut);
            let (e, _) = rec.dec(&x.ct, &x.sk);
            judge(rec, "decapsulation", &e, sealed::hit(), &[("sk", &x.sk), ("ct", &x.ct)])
        });
    }
    let ns = ex.by(64u64, 1024);
    ex.space("fault", "operation and failing request (3) x part of the buffer written (5) x script", 15 * ns, |i, rec| {
        let (key, at) = [(true, 0), (true, 1), (false, 0)][(i % 3) as usize];
        let j = i / 15;
        let mut rng = ScriptRng::new(stream(j, par.seed_bytes() + 32));
        rng.fail_at = Some(at);
        rng.partial = par.seed_bytes() * (i / 3 % 5) as usize / 4;
        rec.state(&[b"F", &i.to_le_bytes()]);
        rec.transitions += 1;
        let e = if key { real::keypair(&mut rng, &mut vec![], &mut vec![]) } else { real::enc(&mut rng, &mut vec![], &mut vec![], &keys[0].pk) };
        judge(rec, "operation with a failing RNG", &e, sealed::hit(), &[])
    });
    let nd = ex.by(256u64, 4096);
    ex.space("drbg", "generator: seed or adopt a state, then requests of every length 0..=80, 255..=257, 4095..=4097; clone, compare and format it", nd * 87, |i, rec| {
        let (j, l) = (i / 87, (i % 87) as usize);
        let len = if l <= 80 { l } else { [255, 256, 257, 4095, 4096, 4097][l - 81] };
        let st = stream(j, 64);
        let mut s = AesState::new();
        if j % 2 == 0 {
            let mut e = [0u8; 48];
            e.copy_from_slice(&st[..48]);
            s.randombytes_init(e);
        } else {
            s.key.copy_from_slice(&st[..32]);
            s.v.copy_from_slice(&st[32..48]);
            if j % 4 == 1 {
                s.v[(j / 4 % 16) as usize..].fill(0xff);
            }
            s.reseed_counter = [0, 1, -1, i32::MAX, i32::MIN, 10_000, 1 << 20, 1 << 30][(j / 2 % 8) as usize];
        }
        rec.state(&[&s.key, &s.v, &s.reseed_counter.to_le_bytes(), &len.to_le_bytes()]);
        rec.transitions += 1;
        let mut buf = vec![0u8; len];
        let mut text = String::with_capacity(4096);
        let r = sealed::seal(|| {
            catch_unwind(AssertUnwindSafe(|| {
                let r = s.randombytes(&mut buf).is_ok();
                let mut e = [0u8; 48];
                e.copy_from_slice(&st[8..56]);
                let c = s.clone();
                s.randombytes_init(e);
                let same = c == s;
                let d = AesState::default();
                let _ = std::fmt::Write::write_fmt(&mut text, format_args!("{} {:?}", c, d));
                (r, same)
            }))
        });
        rec.outcome(&[&buf, text.as_bytes()]);
        let e = if r.is_ok() { End::Ok } else { End::Panic(String::new()) };
        judge(rec, "the generator", &e, sealed::hit(), &[("key", &s.key), ("v", &s.v)])
    });
}
