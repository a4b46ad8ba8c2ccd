//! NIST PQC "randombytes": AES-256 CTR DRBG without derivation function.
use super::aes::Aes256;

#[derive(Clone, Debug, PartialEq)]
pub struct Drbg {
    pub key: [u8; 32],
    pub v: [u8; 16],
    pub reseed_counter: i32,
}

fn inc(v: &mut [u8; 16]) {
    for j in (0..16).rev() {
        if v[j] == 0xff {
            v[j] = 0;
        } else {
            v[j] += 1;
            break;
        }
    }
}

impl Drbg {
    pub fn zero() -> Drbg {
        Drbg { key: [0; 32], v: [0; 16], reseed_counter: 0 }
    }

    pub fn seeded(e: &[u8; 48]) -> Drbg {
        let mut d = Drbg::zero();
        d.init(e);
        d
    }

    fn update(&mut self, data: Option<&[u8; 48]>) {
        let aes = Aes256::new(&self.key);
        let mut t = [0u8; 48];
        for i in 0..3 {
            inc(&mut self.v);
            t[16 * i..16 * i + 16].copy_from_slice(&aes.encrypt(&self.v));
        }
        if let Some(d) = data {
            for i in 0..48 {
                t[i] ^= d[i];
            }
        }
        self.key.copy_from_slice(&t[..32]);
        self.v.copy_from_slice(&t[32..]);
    }

    pub fn init(&mut self, e: &[u8; 48]) {
        self.key = [0; 32];
        self.v = [0; 16];
        self.update(Some(e));
        self.reseed_counter = 1;
    }

    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let aes = Aes256::new(&self.key);
        let mut out = Vec::with_capacity(len);
        while out.len() < len {
            inc(&mut self.v);
            let b = aes.encrypt(&self.v);
            let take = (len - out.len()).min(16);
            out.extend_from_slice(&b[..take]);
        }
        self.update(None);
        self.reseed_counter = self.reseed_counter.wrapping_add(1);
        out
    }
}
