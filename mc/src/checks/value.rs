//! C19: generator states are plain values.
use crate::explore::{vio, Check, Explorer, Rec};
use crate::spaces::stream;
use ntrust_native::{AesState, RNGState};

type B = [u8; 52];

fn mk(b: &B) -> AesState {
    let mut s = AesState::new();
    s.key.copy_from_slice(&b[..32]);
    s.v.copy_from_slice(&b[32..48]);
    s.reseed_counter = i32::from_be_bytes([b[48], b[49], b[50], b[51]]);
    s
}
fn un(s: &AesState) -> B {
    let mut b = [0u8; 52];
    b[..32].copy_from_slice(&s.key);
    b[32..48].copy_from_slice(&s.v);
    b[48..].copy_from_slice(&s.reseed_counter.to_be_bytes());
    b
}
fn base(j: u64) -> B {
    let mut b = [0u8; 52];
    match j {
        0 => {}
        1 => b = [0xff; 52],
        2 => b = [0x80; 52],
        3 => (0..52).for_each(|i| b[i] = i as u8),
        4 => b[48] = 0x7f,
        _ => b.copy_from_slice(&stream(j ^ 0x4444, 52)),
    }
    b
}

/// everything the property says about the states x and y
fn pair(rec: &mut Rec, x: &B, y: &B) -> Check {
    rec.state(&[b"V", x, y]);
    let (a, b) = (mk(x), mk(y));
    let data: &[(&str, &[u8])] = &[("state1", x), ("state2", y)];
    let want = x == y;
    rec.transitions += 6;
    if (a == b) != want || (b == a) != want || (a != b) == want || (b != a) == want {
        return vio(format!("states that {} compare as {}", if want { "are equal" } else { "differ" }, if a == b { "equal" } else { "different" }), data);
    }
    let (ta, tb) = (a.to_string(), b.to_string());
    let (da, db) = (format!("{:?}", a), format!("{:?}", b));
    rec.outcome(&[&[want as u8], ta.as_bytes(), da.as_bytes()]);
    if (ta == tb) != want {
        return vio("the Display texts of two states are equal although the states differ, or differ although they are equal", data);
    }
    if (da == db) != want {
        return vio("the Debug texts of two states are equal although the states differ, or differ although they are equal", data);
    }
    if un(&a) != *x || un(&b) != *y {
        return vio("comparing or formatting a state changes it", data);
    }
    // copies
    let mut c = a.clone();
    if un(&c) != *x || c != a {
        return vio("a clone differs from its original", data);
    }
    c.clone_from(&b);
    if un(&c) != *y || c != b {
        return vio("clone_from does not give the state that was cloned", data);
    }
    if un(&a) != *x || un(&b) != *y {
        return vio("cloning a state changes it", data);
    }
    rec.tag(if want { "equal" } else { "different" });
    Ok(())
}

/// a copy and its original go on independently and alike
fn apart(rec: &mut Rec, x: &B, len: usize, seeded: bool) -> Check {
    rec.state(&[b"A", x, &len.to_le_bytes(), &[seeded as u8]]);
    let mut a = mk(x);
    let mut o = vec![0u8; len];
    if seeded {
        let mut e = [0u8; 48];
        e.copy_from_slice(&x[..48]);
        a.randombytes_init(e);
    }
    let data: &[(&str, &[u8])] = &[("state", x)];
    let start = un(&a);
    let mut c = a.clone();
    let r = |s: &mut AesState, o: &mut Vec<u8>| s.randombytes(o).is_ok();
    rec.transitions += 4;
    if !r(&mut a, &mut o) {
        return vio("a request fails", data);
    }
    if un(&c) != start {
        return vio("using a state changes its clone", data);
    }
    let after = un(&a);
    let mut o2 = vec![0xffu8; len];
    if !r(&mut c, &mut o2) || o2 != o {
        return vio("a clone does not give the bytes its original gave", data);
    }
    if un(&c) != after || c != a {
        return vio("a clone and its original differ after the same request", data);
    }
    let mut d = mk(&start);
    let mut o3 = vec![0x55u8; len];
    if !r(&mut d, &mut o3) || o3 != o || d != a {
        return vio("a state with the same fields does not behave alike", data);
    }
    if un(&a) != after {
        return vio("using a clone changes its original", data);
    }
    rec.outcome(&[&o, &after]);
    rec.tag("alike");
    Ok(())
}

pub fn c19(ex: &mut Explorer) {
    let full = ex.par.n == 509 || !ex.quick();
    ex.space("fresh", "new and default", 1, |_, rec| {
        rec.state(&[b"fresh"]);
        rec.transitions += 2;
        let (a, b) = (AesState::new(), AesState::default());
        if un(&a) != [0; 52] || un(&b) != [0; 52] || a != b {
            return vio("a fresh state is not all zero", &[("new", &un(&a)), ("default", &un(&b))]);
        }
        Ok(())
    });
    let nb = if full { ex.by(16u64, 64) } else { 5 };
    ex.space("bit", "base states x every single bit flipped", nb * 417, |i, rec| {
        let x = base(i / 417);
        let mut y = x;
        let k = (i % 417) as usize;
        if k < 416 {
            y[k / 8] ^= 1 << (k % 8);
        }
        pair(rec, &x, &y)
    });
    ex.space("byte", "every field byte x every value against the base state", if full { 3 } else { 1 } * 52 * 256, |i, rec| {
        let x = base(i / (52 * 256) * 5);
        let mut y = x;
        y[(i / 256 % 52) as usize] = i as u8;
        pair(rec, &x, &y)
    });
    let nm = ex.by(4u64, 255);
    let np = if full { 52 * 51 / 2 * nm * 2 } else { 52 * 51 / 2 };
    ex.space("two", "every pair of bytes changed by the same mask (differences that cancel when folded)", np, |i, rec| {
        let (mut p, mut a) = (i % 1326, 0usize);
        while p >= (51 - a) as u64 {
            p -= (51 - a) as u64;
            a += 1;
        }
        let b = a + 1 + p as usize;
        let k = i / 1326;
        let x = base(k / nm * 5);
        let m = if nm == 4 { [0x01, 0x80, 0xff, 0x18][(k % 4) as usize] } else { (k % nm) as u8 + 1 };
        let mut y = x;
        y[a] ^= m;
        y[b] ^= m;
        pair(rec, &x, &y)
    });
    ex.space("swap", "every pair of bytes exchanged, opposite differences (+1, -1)", if full { 1326 * 4 } else { 1326 }, |i, rec| {
        let (mut p, mut a) = (i % 1326, 0usize);
        while p >= (51 - a) as u64 {
            p -= (51 - a) as u64;
            a += 1;
        }
        let b = a + 1 + p as usize;
        let x = base(if i / 2652 == 0 { 3 } else { 7 });
        let mut y = x;
        if i / 1326 % 2 == 0 {
            y.swap(a, b);
        } else {
            y[a] = y[a].wrapping_add(1);
            y[b] = y[b].wrapping_sub(1);
        }
        pair(rec, &x, &y)
    });
    // a set of related states, each against each
    let mut set: Vec<B> = (0..10).map(base).collect();
    let s = base(9);
    for f in 0..3 {
        // one field differs, or only one agrees
        let r = [0..32usize, 32..48, 48..52][f].clone();
        let (mut a, mut b) = (s, base(8));
        a[r.clone()].copy_from_slice(&base(8)[r.clone()]);
        b[r.clone()].copy_from_slice(&s[r.clone()]);
        set.push(a);
        set.push(b);
        let mut z = s;
        z[r].fill(0);
        set.push(z);
    }
    for c in [0i32, 1, 2, 9, 10, 11, 99, 100, 111, -1, -10, -11, i32::MAX, i32::MIN, 256, 65536, 1 << 24] {
        let mut a = s;
        a[48..].copy_from_slice(&c.to_be_bytes());
        set.push(a);
    }
    for (a, b) in [(1u8, 23u8), (12, 3), (0, 123), (123, 0), (0, 0x10), (1, 0), (0x11, 1), (1, 0x11), (11, 11), (1, 111), (111, 1)] {
        // texts that run together if bytes are not separated or padded
        for p in [0usize, 14, 30, 32, 46] {
            let mut x = [0u8; 52];
            x[p] = a;
            x[p + 1] = b;
            set.push(x);
        }
    }
    let n = set.len() as u64;
    let full2 = full;
    ex.space("cross", "related states (fields exchanged, fields zero, counter values, digits that run together), each against each", if full2 { n * n } else { n * 8 }, |i, rec| pair(rec, &set[(i % n) as usize], &set[(i / n) as usize]));
    let lens = [0usize, 1, 15, 16, 17, 32, 48, 100, 1138];
    ex.space("apart", "states x seeded or adopted x request length: clone and original go on independently and alike", n * 2 * lens.len() as u64, |i, rec| {
        apart(rec, &set[(i / 2 % n) as usize], lens[(i / 2 / n) as usize], i % 2 == 0)
    });
}
