//! AES-256 single-block encryption, straight from FIPS 197.
use std::sync::OnceLock;

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut p = 0;
    while b != 0 {
        if b & 1 != 0 {
            p ^= a;
        }
        a = (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 });
        b >>= 1;
    }
    p
}

fn sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for x in 0..256usize {
            let mut inv = 0u8;
            for y in 1..=255u8 {
                if gmul(x as u8, y) == 1 {
                    inv = y;
                    break;
                }
            }
            s[x] = inv
                ^ inv.rotate_left(1)
                ^ inv.rotate_left(2)
                ^ inv.rotate_left(3)
                ^ inv.rotate_left(4)
                ^ 0x63;
        }
        s
    })
}

pub struct Aes256 {
    rk: [[u8; 16]; 15],
}

impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let s = sbox();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = gmul(rcon, 2);
            } else if i % 8 == 4 {
                for b in t.iter_mut() {
                    *b = s[*b as usize];
                }
            }
            for j in 0..4 {
                w[i][j] = w[i - 8][j] ^ t[j];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        Aes256 { rk }
    }

    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let xt = |b: u8| (b << 1) ^ (if b & 0x80 != 0 { 0x1b } else { 0 });
        let mut st = *block;
        for i in 0..16 {
            st[i] ^= self.rk[0][i];
        }
        for r in 1..15 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = s[st[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r < 14 {
                for c in 0..4 {
                    let col = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for row in 0..4 {
                        t[4 * c + row] = xt(col[row])
                            ^ (xt(col[(row + 1) % 4]) ^ col[(row + 1) % 4])
                            ^ col[(row + 2) % 4]
                            ^ col[(row + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                st[i] = t[i] ^ self.rk[r][i];
            }
        }
        st
    }
}
