//! The implementation under test, reached only through its public API.
use crate::sealed;
use ntrust_native as nn;
use ntrust_native::{crypto_kem_dec, crypto_kem_enc, crypto_kem_keypair, RNGState};
use std::error::Error;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PK: usize = nn::CRYPTO_PUBLICKEYBYTES;
pub const SK: usize = nn::CRYPTO_SECRETKEYBYTES;
pub const CT: usize = nn::CRYPTO_CIPHERTEXTBYTES;
pub const SS: usize = nn::CRYPTO_BYTES;

#[derive(Debug)]
pub struct RngFault(pub u64);
impl fmt::Display for RngFault {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "rng fault {}", self.0)
    }
}
impl Error for RngFault {}

/// An RNG that serves a byte script, records every request and can fail at a chosen one.
#[derive(Clone, Default)]
pub struct ScriptRng {
    pub script: Vec<u8>,
    pub pos: usize,
    pub requests: Vec<usize>,
    pub inits: usize,
    pub overrun: bool,
    pub fail_at: Option<usize>,
    pub panic_at: Option<usize>,
    pub partial: usize, // bytes written before failing
    pub token: u64,
}

impl ScriptRng {
    pub fn new(script: Vec<u8>) -> ScriptRng {
        ScriptRng { script, ..Default::default() }
    }
}

impl RNGState for ScriptRng {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let no = self.requests.len();
        assert!(no < 100_000, "the RNG was asked 100000 times in one call");
        self.requests.push(x.len());
        assert!(self.panic_at != Some(no), "the RNG panics");
        let fail = self.fail_at == Some(no);
        let lim = if fail { self.partial.min(x.len()) } else { x.len() };
        for b in x[..lim].iter_mut() {
            *b = match self.script.get(self.pos) {
                Some(v) => *v,
                None => {
                    self.overrun = true;
                    (self.pos as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes()[0]
                }
            };
            self.pos += 1;
        }
        if fail {
            return Err(Box::new(RngFault(self.token)));
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _e: [u8; 48]) {
        self.inits += 1;
    }
}

/// How a call ended: Ok, the error it returned, or the panic it raised.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err(String),
    Panic(String),
}

fn run<F: FnOnce() -> Result<(), Box<dyn Error>>>(f: F) -> End {
    match sealed::seal(|| catch_unwind(AssertUnwindSafe(f))) {
        Ok(Ok(())) => End::Ok,
        Ok(Err(e)) => End::Err(match e.downcast_ref::<RngFault>() {
            Some(t) => format!("RngFault({})", t.0),
            None => format!("other: {}", e),
        }),
        Err(p) => End::Panic(
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into()),
        ),
    }
}

fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    let mut a = [0u8; N];
    let l = v.len().min(N);
    a[..l].copy_from_slice(&v[..l]);
    a
}

pub fn keypair(rng: &mut impl RNGState, pk: &mut Vec<u8>, sk: &mut Vec<u8>) -> End {
    let mut p: [u8; PK] = arr(pk);
    let mut s: [u8; SK] = arr(sk);
    let e = run(|| crypto_kem_keypair(&mut p, &mut s, rng));
    *pk = p.to_vec();
    *sk = s.to_vec();
    e
}

pub fn enc(rng: &mut impl RNGState, c: &mut Vec<u8>, k: &mut Vec<u8>, pk: &[u8]) -> End {
    let mut ca: [u8; CT] = arr(c);
    let mut ka: [u8; SS] = arr(k);
    let p: [u8; PK] = arr(pk);
    let before = p;
    let e = run(|| crypto_kem_enc(&mut ca, &mut ka, &p, rng));
    *c = ca.to_vec();
    *k = ka.to_vec();
    if p != before {
        return End::Panic("public key input modified".into());
    }
    e
}

pub fn dec(k: &mut Vec<u8>, c: &[u8], sk: &[u8]) -> End {
    let mut ka: [u8; SS] = arr(k);
    let ca: [u8; CT] = arr(c);
    let sa: [u8; SK] = arr(sk);
    let (cb, sb) = (ca, sa);
    let e = run(|| crypto_kem_dec(&mut ka, &ca, &sa));
    *k = ka.to_vec();
    if ca != cb || sa != sb {
        return End::Panic("ciphertext or secret key input modified".into());
    }
    e
}
