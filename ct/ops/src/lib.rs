//! Instantiates the generic entry points of the library in an instrumented crate.
use ntrust_native::*;
use std::error::Error;

pub const PK: usize = CRYPTO_PUBLICKEYBYTES;
pub const SK: usize = CRYPTO_SECRETKEYBYTES;
pub const CT: usize = CRYPTO_CIPHERTEXTBYTES;
pub const SS: usize = CRYPTO_BYTES;

/// serves a prepared block per request
pub struct Script {
    pub buf: [u8; 8192],
    pub pos: usize,
}
impl RNGState for Script {
    #[inline(never)]
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        for b in x.iter_mut() {
            *b = self.buf[self.pos % 8192];
            self.pos += 1;
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {}
}

pub struct Io {
    pub pk: [u8; PK],
    pub sk: [u8; SK],
    pub ct: [u8; CT],
    pub k: [u8; SS],
    pub rng: Script,
}

#[inline(never)]
pub fn keypair(io: &mut Io) -> bool {
    crypto_kem_keypair(&mut io.pk, &mut io.sk, &mut io.rng).is_ok()
}
#[inline(never)]
pub fn enc(io: &mut Io) -> bool {
    crypto_kem_enc(&mut io.ct, &mut io.k, &io.pk, &mut io.rng).is_ok()
}
#[inline(never)]
pub fn dec(io: &mut Io) -> bool {
    crypto_kem_dec(&mut io.k, &io.ct, &io.sk).is_ok()
}

/// key generation and encapsulation with the bundled generator
#[inline(never)]
pub fn bundled(io: &mut Io) -> bool {
    let mut rng = AesState::new();
    let mut e = [0u8; 48];
    e.copy_from_slice(&io.rng.buf[..48]);
    rng.randombytes_init(e);
    crypto_kem_keypair(&mut io.pk, &mut io.sk, &mut rng).is_ok() && crypto_kem_enc(&mut io.ct, &mut io.k, &io.pk, &mut rng).is_ok()
}

/// requests to the bundled generator
#[inline(never)]
pub fn generator(io: &mut Io) -> bool {
    let mut rng = AesState::new();
    let mut e = [0u8; 48];
    e.copy_from_slice(&io.rng.buf[..48]);
    rng.randombytes_init(e);
    rng.randombytes(&mut io.k).is_ok() && rng.clone().randombytes(&mut io.ct).is_ok() && rng.randombytes(&mut io.pk).is_ok()
}

/// fails at a chosen request
struct Failing<'a>(&'a mut Script, usize);
impl RNGState for Failing<'_> {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        if self.1 == 0 {
            return Err("rng".into());
        }
        self.1 -= 1;
        self.0.randombytes(x)
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {}
}
#[inline(never)]
pub fn failing_keypair(io: &mut Io, at: usize) -> bool {
    crypto_kem_keypair(&mut io.pk, &mut io.sk, &mut Failing(&mut io.rng, at)).is_ok()
}
#[inline(never)]
pub fn failing_enc(io: &mut Io) -> bool {
    crypto_kem_enc(&mut io.ct, &mut io.k, &io.pk, &mut Failing(&mut io.rng, 0)).is_ok()
}
