//! SHA3-256, straight from FIPS 202.

fn keccak_f(a: &mut [u64; 25]) {
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        // rho and pi
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[1];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            x = nx;
            y = ny;
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let tmp = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left(r);
            cur = tmp;
        }
        // chi
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[x + 5 * y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        // iota: round constant from the LFSR
        for j in 0..7 {
            let bit = lfsr & 1;
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
            if bit == 1 {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
        }
    }
}

pub fn sha3_256(parts: &[&[u8]]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut msg: Vec<u8> = parts.concat();
    msg.push(0x06);
    while msg.len() % RATE != 0 {
        msg.push(0);
    }
    let last = msg.len() - 1;
    msg[last] |= 0x80;
    let mut a = [0u64; 25];
    for block in msg.chunks(RATE) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    out
}
