//! Concrete SHA-512 and SHA-512/256 for hash applications whose input is fully concrete.
fn primes(n: usize) -> Vec<u64> {
    let mut v = Vec::new();
    let mut k = 2u64;
    while v.len() < n {
        if (2..k).take_while(|d| d * d <= k).all(|d| k % d != 0) {
            v.push(k);
        }
        k += 1;
    }
    v
}
/// floor(frac(p^(1/r)) * 2^64) with integer arithmetic
fn frac_root(p: u64, r: u32) -> u64 {
    // find x = floor(p^(1/r) * 2^64) via binary search on 256-bit style arithmetic
    let mut lo: u128 = 0;
    let mut hi: u128 = 1u128 << 72;
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if le_root(mid, p, r) {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo as u64
}
fn le_root(x: u128, p: u64, r: u32) -> bool {
    // x^r <= p * 2^(64 r)
    let mut acc = vec![1u32];
    let xd = digits(x);
    for _ in 0..r {
        acc = bmul(&acc, &xd);
    }
    let mut rhs = vec![0u32; (2 * r) as usize];
    rhs.extend(digits(p as u128));
    bcmp(&acc, &rhs) != std::cmp::Ordering::Greater
}
fn digits(mut x: u128) -> Vec<u32> {
    let mut v = Vec::new();
    while x > 0 {
        v.push(x as u32);
        x >>= 32;
    }
    v
}
fn bmul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            let t = r[k] as u64 + c;
            r[k] = t as u32;
            c = t >> 32;
            k += 1;
        }
    }
    r
}
fn bcmp(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
        if x != y {
            return x.cmp(&y);
        }
    }
    std::cmp::Ordering::Equal
}

struct K {
    k: Vec<u64>,
    iv: [u64; 8],
}
thread_local! {
    static KS: K = {
        let p = primes(80);
        let k = p.iter().map(|&x| frac_root(x, 3)).collect();
        let mut iv = [0u64; 8];
        for i in 0..8 { iv[i] = frac_root(p[i], 2); }
        K { k, iv }
    };
}

fn sha512_core(msg: &[u8], iv: [u64; 8]) -> [u8; 64] {
    KS.with(|ks| {
        let mut h = iv;
        let mut m = msg.to_vec();
        let bits = (msg.len() as u128) * 8;
        m.push(0x80);
        while m.len() % 128 != 112 {
            m.push(0);
        }
        m.extend_from_slice(&bits.to_be_bytes());
        for blk in m.chunks(128) {
            let mut w = [0u64; 80];
            for i in 0..16 {
                let mut b = [0u8; 8];
                b.copy_from_slice(&blk[i * 8..i * 8 + 8]);
                w[i] = u64::from_be_bytes(b);
            }
            for i in 16..80 {
                let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
                let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
                w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
            }
            let mut v = h;
            for i in 0..80 {
                let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(ks.k[i]).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
                let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(maj);
                v[7] = v[6];
                v[6] = v[5];
                v[5] = v[4];
                v[4] = v[3].wrapping_add(t1);
                v[3] = v[2];
                v[2] = v[1];
                v[1] = v[0];
                v[0] = t1.wrapping_add(t2);
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
        let mut out = [0u8; 64];
        for i in 0..8 {
            out[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_be_bytes());
        }
        out
    })
}

/// kind 0: SHA-512/256 (32 bytes, rest zero); 1: SHA-512; kinds from 8 on: 32 bytes, rest zero; otherwise SHA-512 of (kind byte || data) as a generic 64-byte function
pub fn digest(kind: u64, data: &[u8]) -> [u8; 64] {
    let iv = KS.with(|k| k.iv);
    if kind == 0 {
        let mut iv2 = iv;
        for x in iv2.iter_mut() {
            *x ^= 0xa5a5a5a5a5a5a5a5;
        }
        let d = sha512_core(b"SHA-512/256", iv2);
        let mut h = [0u64; 8];
        for i in 0..8 {
            let mut b = [0u8; 8];
            b.copy_from_slice(&d[i * 8..i * 8 + 8]);
            h[i] = u64::from_be_bytes(b);
        }
        let r = sha512_core(data, h);
        let mut out = [0u8; 64];
        out[..32].copy_from_slice(&r[..32]);
        out
    } else if kind == 1 {
        sha512_core(data, iv)
    } else {
        let mut v = vec![kind as u8];
        v.extend_from_slice(data);
        let mut r = sha512_core(&v, iv);
        if kind >= 8 {
            r[32..].fill(0);
        }
        r
    }
}
