//! FIPS 180-4 SHA-256, RFC 2104 HMAC, RFC 5869 HKDF, FIPS 202, RFC 7693 BLAKE2b-512 (unkeyed).
use crate::gen::{hex, unhex};
use num::{BigUint, One, ToPrimitive, Zero};

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// First `bits` fractional bits of the `k`-th root of n.
fn root_frac(n: u64, k: u32, bits: u32) -> u64 {
    let target = BigUint::from(n) << (k * bits) as usize;
    let (mut lo, mut hi) = (BigUint::zero(), BigUint::one() << (bits + 12) as usize);
    while &lo + 1u32 < hi {
        let mid = (&lo + &hi) >> 1usize;
        if num::pow(mid.clone(), k as usize) <= target {
            lo = mid
        } else {
            hi = mid
        }
    }
    let m = (BigUint::one() << bits as usize) - 1u32;
    (lo & m).to_u64().unwrap()
}

pub struct Sha256 {
    k: Vec<u32>,
    iv: [u32; 8],
}
impl Default for Sha256 {
    fn default() -> Self {
        Self::new()
    }
}
impl Sha256 {
    pub fn new() -> Self {
        let p = primes(64);
        let mut iv = [0; 8];
        for i in 0..8 {
            iv[i] = root_frac(p[i], 2, 32) as u32;
        }
        Sha256 { k: p.iter().map(|&p| root_frac(p, 3, 32) as u32).collect(), iv }
    }
    pub fn hash(&self, msg: &[u8]) -> Vec<u8> {
        let mut m = msg.to_vec();
        m.push(0x80);
        while m.len() % 64 != 56 {
            m.push(0);
        }
        m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
        let mut st = self.iv;
        for blk in m.chunks(64) {
            let mut w = [0u32; 64];
            for (i, c) in blk.chunks(4).enumerate() {
                w[i] = u32::from_be_bytes([c[0], c[1], c[2], c[3]]);
            }
            for t in 16..64 {
                let a = w[t - 15];
                let b = w[t - 2];
                let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
                let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
                w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
            }
            let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = st;
            for t in 0..64 {
                let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
                let ch = (e & f) | (!e & g);
                let t1 = h.wrapping_add(s1).wrapping_add(ch).wrapping_add(self.k[t]).wrapping_add(w[t]);
                let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
                let mj = (a & b) | (a & c) | (b & c);
                let t2 = s0.wrapping_add(mj);
                h = g;
                g = f;
                f = e;
                e = d.wrapping_add(t1);
                d = c;
                c = b;
                b = a;
                a = t1.wrapping_add(t2);
            }
            for (s, v) in st.iter_mut().zip([a, b, c, d, e, f, g, h]) {
                *s = s.wrapping_add(v);
            }
        }
        st.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn hmac(&self, key: &[u8], txt: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > 64 { self.hash(key) } else { key.to_vec() };
        k.resize(64, 0);
        let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
        inner.extend_from_slice(txt);
        let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
        outer.extend(self.hash(&inner));
        self.hash(&outer)
    }
    pub fn extract(&self, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
        // an absent salt is HashLen zeros; under HMAC an empty key is the same
        self.hmac(salt, ikm)
    }
    pub fn expand(&self, prk: &[u8], info: &[u8], l: usize) -> Vec<u8> {
        let mut out = vec![];
        let mut t: Vec<u8> = vec![];
        let mut n = 0u32;
        while out.len() < l {
            n += 1;
            let mut x = t.clone();
            x.extend_from_slice(info);
            x.push(n as u8);
            t = self.hmac(prk, &x);
            out.extend_from_slice(&t);
        }
        out.truncate(l);
        out
    }
}

// ------------------------------------------------------------------ FIPS 202
fn rc_bit(t: u32) -> bool {
    // x^t mod x^8+x^6+x^5+x^4+1, lowest coefficient
    let mut r = 1u32;
    for _ in 0..t % 255 {
        r <<= 1;
        if r & 0x100 != 0 {
            r ^= 0x171;
        }
    }
    r & 1 == 1
}
/// Lane (x,y) is s[x][y].
pub fn keccak_f(s: &mut [[u64; 5]; 5]) {
    for round in 0..24u32 {
        let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |a, y| a ^ s[x][y])).collect();
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                s[x][y] ^= d;
            }
        }
        // rho and pi
        let mut b = [[0u64; 5]; 5];
        b[0][0] = s[0][0];
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            let off = ((t + 1) * (t + 2) / 2) % 64;
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            b[nx][ny] = s[x][y].rotate_left(off);
            x = nx;
            y = ny;
        }
        for x in 0..5 {
            for y in 0..5 {
                s[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        let mut rc = 0u64;
        for j in 0..=6u32 {
            if rc_bit(j + 7 * round) {
                rc |= 1u64 << ((1u32 << j) - 1);
            }
        }
        s[0][0] ^= rc;
    }
}
pub fn sponge(rate: usize, domain: u8, msg: &[u8], outlen: usize) -> Vec<u8> {
    let mut p = msg.to_vec();
    p.push(domain);
    while p.len() % rate != 0 {
        p.push(0);
    }
    *p.last_mut().unwrap() |= 0x80;
    let mut s = [[0u64; 5]; 5];
    for blk in p.chunks(rate) {
        for (i, c) in blk.chunks(8).enumerate() {
            let mut a = [0u8; 8];
            a.copy_from_slice(c);
            s[i % 5][i / 5] ^= u64::from_le_bytes(a);
        }
        keccak_f(&mut s);
    }
    let mut out = vec![];
    loop {
        for i in 0..rate / 8 {
            out.extend_from_slice(&s[i % 5][i / 5].to_le_bytes());
        }
        if out.len() >= outlen {
            break;
        }
        keccak_f(&mut s);
    }
    out.truncate(outlen);
    out
}
pub fn sha3(bits: usize, msg: &[u8]) -> Vec<u8> {
    sponge(200 - bits / 4, 0x06, msg, bits / 8)
}
pub fn shake(bits: usize, msg: &[u8], outlen: usize) -> Vec<u8> {
    sponge(200 - bits / 4, 0x1f, msg, outlen)
}

// ------------------------------------------------------------------ BLAKE2b
const SIGMA: [&str; 10] = [
    "0123456789abcdef", "ea489fd61c02b753", "b8c052fdae367194", "7931dcbe265a40f8", "905724afe1bc683d",
    "2c6a0b834d75fe19", "c51fed4a0763928b", "db7ec13950f4862a", "6fe9b308c2d714a5", "a2847615fb9e3cd0",
];
pub struct Blake2b {
    iv: [u64; 8],
    sigma: Vec<Vec<usize>>,
}
impl Default for Blake2b {
    fn default() -> Self {
        Self::new()
    }
}
impl Blake2b {
    pub fn new() -> Self {
        let p = primes(8);
        let mut iv = [0; 8];
        for i in 0..8 {
            iv[i] = root_frac(p[i], 2, 64);
        }
        let sigma: Vec<Vec<usize>> = SIGMA.iter().map(|r| r.chars().map(|c| c.to_digit(16).unwrap() as usize).collect()).collect();
        for r in &sigma {
            let mut q = r.clone();
            q.sort();
            assert!(q == (0..16).collect::<Vec<_>>());
        }
        Blake2b { iv, sigma }
    }
    pub fn hash(&self, msg: &[u8]) -> Vec<u8> {
        let mut h = self.iv;
        h[0] ^= 0x01010000 ^ 64;
        let n = ((msg.len() + 127) / 128).max(1);
        let mut m = msg.to_vec();
        m.resize(n * 128, 0);
        for (b, blk) in m.chunks(128).enumerate() {
            let last = b + 1 == n;
            let t: u128 = if last { msg.len() as u128 } else { (b as u128 + 1) * 128 };
            let w: Vec<u64> = blk.chunks(8).map(|c| { let mut a = [0u8; 8]; a.copy_from_slice(c); u64::from_le_bytes(a) }).collect();
            let mut v = [0u64; 16];
            v[..8].copy_from_slice(&h);
            v[8..].copy_from_slice(&self.iv);
            v[12] ^= t as u64;
            v[13] ^= (t >> 64) as u64;
            if last {
                v[14] = !v[14];
            }
            for r in 0..12 {
                let s = &self.sigma[r % 10];
                for i in 0..8 {
                    let (a, b, c, d) = if i < 4 {
                        (i, 4 + i, 8 + i, 12 + i)
                    } else {
                        let j = i - 4;
                        (j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4)
                    };
                    let (x, y) = (w[s[2 * i]], w[s[2 * i + 1]]);
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                    v[d] = (v[d] ^ v[a]).rotate_right(32);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(24);
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                    v[d] = (v[d] ^ v[a]).rotate_right(16);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(63);
                }
            }
            for i in 0..8 {
                h[i] ^= v[i] ^ v[i + 8];
            }
        }
        h.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}

/// Published vectors; panics (a harness error) when a reference disagrees with them.
pub fn selftest() {
    let s = Sha256::new();
    assert_eq!(hex(&s.hash(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
    assert_eq!(hex(&s.hash(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(
        hex(&s.hash(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")),
        "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"
    );
    // RFC 4231 case 2, RFC 5869 case 1
    assert_eq!(hex(&s.hmac(b"Jefe", b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
    let prk = s.extract(&unhex("000102030405060708090a0b0c"), &[0x0b; 22]);
    assert_eq!(hex(&prk), "077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5");
    assert_eq!(
        hex(&s.expand(&prk, &unhex("f0f1f2f3f4f5f6f7f8f9"), 42)),
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"
    );
    assert_eq!(hex(&sha3(256, b"")), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
    assert_eq!(hex(&sha3(224, b"abc")), "e642824c3f8cf24ad09234ee7d3c766fc9a3a5168d0c94ad73b46fdf");
    assert_eq!(hex(&sha3(256, b"abc")), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
    assert_eq!(&hex(&shake(128, b"", 16)), "7f9c2ba4e88f827d616045507605853e");
    assert_eq!(&hex(&shake(256, b"", 16)), "46b9dd2b0ba88d13233b3feb743eeb24");
    let b = Blake2b::new();
    assert_eq!(
        hex(&b.hash(b"abc")),
        "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"
    );
    assert_eq!(
        hex(&b.hash(b"")),
        "786a02f742015903c6c6fd852552d272912f4740e15847618a86e217f71f5419d25e1031afee585313896444934eb04b903a685b1448b755d56f701afe9be2ce"
    );
}
