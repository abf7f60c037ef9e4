//! FIPS 197 AES-128/256, SP 800-38A counter mode, SP 800-38D GHASH and GCM (96-bit IV).
use crate::gen::{hex, unhex};

fn gmul8(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}
pub struct Aes {
    sbox: [u8; 256],
}
impl Default for Aes {
    fn default() -> Self {
        Self::new()
    }
}
impl Aes {
    pub fn new() -> Self {
        let mut sbox = [0u8; 256];
        for x in 0..256usize {
            let inv = (0..=255u8).find(|&y| gmul8(x as u8, y) == 1).unwrap_or(0);
            let mut s = 0x63u8;
            for k in 0..5 {
                s ^= inv.rotate_left(k);
            }
            sbox[x] = s;
        }
        Aes { sbox }
    }
    fn expand(&self, key: &[u8]) -> Vec<[u8; 4]> {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t.rotate_left(1);
                for b in t.iter_mut() {
                    *b = self.sbox[*b as usize];
                }
                t[0] ^= rcon;
                rcon = gmul8(rcon, 2);
            } else if nk > 6 && i % nk == 4 {
                for b in t.iter_mut() {
                    *b = self.sbox[*b as usize];
                }
            }
            let p = w[i - nk];
            w.push([t[0] ^ p[0], t[1] ^ p[1], t[2] ^ p[2], t[3] ^ p[3]]);
        }
        w
    }
    pub fn block(&self, key: &[u8], input: &[u8]) -> Vec<u8> {
        let w = self.expand(key);
        let nr = key.len() / 4 + 6;
        let mut s = input.to_vec();
        let add = |s: &mut Vec<u8>, r: usize| {
            for i in 0..16 {
                s[i] ^= w[4 * r + i / 4][i % 4];
            }
        };
        add(&mut s, 0);
        for r in 1..=nr {
            for b in s.iter_mut() {
                *b = self.sbox[*b as usize];
            }
            let o = s.clone();
            for c in 0..4 {
                for row in 0..4 {
                    s[4 * c + row] = o[4 * ((c + row) % 4) + row];
                }
            }
            if r != nr {
                let o = s.clone();
                for c in 0..4 {
                    for row in 0..4 {
                        s[4 * c + row] = gmul8(2, o[4 * c + row])
                            ^ gmul8(3, o[4 * c + (row + 1) % 4])
                            ^ o[4 * c + (row + 2) % 4]
                            ^ o[4 * c + (row + 3) % 4];
                    }
                }
            }
            add(&mut s, r);
        }
        s
    }
    pub fn ctr(&self, key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        for (i, c) in m.chunks(16).enumerate() {
            let mut b = nonce.to_vec();
            b.extend_from_slice(&ctr.wrapping_add(i as u32).to_be_bytes());
            let ks = self.block(key, &b);
            out.extend(c.iter().zip(ks).map(|(a, b)| a ^ b));
        }
        out
    }
    pub fn gcm(&self, key: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let h = self.block(key, &[0; 16]);
        let ct = self.ctr(key, iv, 2, m);
        let s = ghash(&h, &gcm_data(aad, &ct));
        let tag = self.ctr(key, iv, 1, &s);
        (ct, tag)
    }
}
pub fn gcm_data(aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut d = aad.to_vec();
    d.resize((d.len() + 15) / 16 * 16, 0);
    d.extend_from_slice(ct);
    d.resize((d.len() + 15) / 16 * 16, 0);
    d.extend_from_slice(&(aad.len() as u64 * 8).to_be_bytes());
    d.extend_from_slice(&(ct.len() as u64 * 8).to_be_bytes());
    d
}
/// Carry-less product then reduction, bit i of the polynomial is bit 127-i of the block.
fn gf_mul(x: u128, y: u128) -> u128 {
    let (x, y) = (x.reverse_bits(), y.reverse_bits());
    // 256-bit product in (hi, lo)
    let (mut hi, mut lo) = (0u128, 0u128);
    for i in 0..128 {
        if (y >> i) & 1 == 1 {
            lo ^= x << i;
            if i > 0 {
                hi ^= x >> (128 - i);
            }
        }
    }
    // reduce by x^128 = x^7+x^2+x+1
    for i in (0..128).rev() {
        if (hi >> i) & 1 == 1 {
            for k in [7, 2, 1, 0] {
                let p = i + k;
                if p >= 128 {
                    hi ^= 1 << (p - 128);
                } else {
                    lo ^= 1 << p;
                }
            }
        }
    }
    lo.reverse_bits()
}
/// GHASH of data zero-padded to full blocks.
pub fn ghash(h: &[u8], data: &[u8]) -> Vec<u8> {
    let be = |b: &[u8]| {
        let mut a = [0u8; 16];
        a[..b.len()].copy_from_slice(b);
        u128::from_be_bytes(a)
    };
    let h = be(h);
    let mut acc = 0;
    for c in data.chunks(16) {
        acc = gf_mul(acc ^ be(c), h);
    }
    acc.to_be_bytes().to_vec()
}

pub fn selftest() {
    let a = Aes::new();
    // FIPS 197 appendix C
    let pt = unhex("00112233445566778899aabbccddeeff");
    let k: Vec<u8> = (0..32).collect();
    assert_eq!(hex(&a.block(&k[..16], &pt)), "69c4e0d86a7b0430d8cdb78070b4c55a");
    assert_eq!(hex(&a.block(&k, &pt)), "8ea2b7ca516745bfeafc49904b496089");
    // SP 800-38A F.5.1 first two blocks
    assert_eq!(
        hex(&a.ctr(
            &unhex("2b7e151628aed2a6abf7158809cf4f3c"), &unhex("f0f1f2f3f4f5f6f7f8f9fafb"), 0xfcfdfeff,
            &unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")
        )),
        "874d6191b620e3261bef6864990db6ce9806f66b7970fdff8617187bb9fffdff"
    );
    // GCM specification test cases 2, 4 and 16
    let (c, t) = a.gcm(&[0; 16], &[0; 12], &[], &[0; 16]);
    assert_eq!(hex(&c), "0388dace60b6a392f328c2b971b2fe78");
    assert_eq!(hex(&t), "ab6e47d42cec13bdf53a67b21257bddf");
    let p = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
    let aad = unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2");
    let iv = unhex("cafebabefacedbaddecaf888");
    let k = unhex("feffe9928665731c6d6a8f9467308308");
    assert_eq!(hex(&a.gcm(&k, &iv, &aad, &p).1), "5bc94fbc3221a5db94fae95ae7121a47");
    let k2 = [k.clone(), k].concat();
    assert_eq!(hex(&a.gcm(&k2, &iv, &aad, &p).1), "76fc6ece0f4e1768cddf8853bb2d551b");
}
