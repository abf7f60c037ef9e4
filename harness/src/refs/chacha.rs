//! RFC 8439: ChaCha20, Poly1305 and their AEAD.
use crate::gen::{hex, unhex};
use num::{BigUint, One, Zero};

pub fn quarter(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    for (x, y, z, r) in [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)] {
        s[x] = s[x].wrapping_add(s[y]);
        s[z] = (s[z] ^ s[x]).rotate_left(r);
    }
}
pub fn init(key: &[u8], ctr: u32, iv: &[u8]) -> [u32; 16] {
    let mut bytes = b"expand 32-byte k".to_vec();
    bytes.extend_from_slice(key);
    bytes.extend_from_slice(&ctr.to_le_bytes());
    bytes.extend_from_slice(iv);
    assert_eq!(bytes.len(), 64);
    let mut s = [0; 16];
    for (i, c) in bytes.chunks(4).enumerate() {
        s[i] = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
    s
}
pub fn block_words(key: &[u8], ctr: u32, iv: &[u8]) -> [u32; 16] {
    let i = init(key, ctr, iv);
    let mut s = i;
    for _ in 0..10 {
        for k in 0..4 {
            quarter(&mut s, k, 4 + k, 8 + k, 12 + k);
        }
        for k in 0..4 {
            quarter(&mut s, k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4);
        }
    }
    for k in 0..16 {
        s[k] = s[k].wrapping_add(i[k]);
    }
    s
}
pub fn block(key: &[u8], ctr: u32, iv: &[u8]) -> Vec<u8> {
    block_words(key, ctr, iv).iter().flat_map(|w| w.to_le_bytes()).collect()
}
pub fn xor_stream(key: &[u8], ctr: u32, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in m.chunks(64).enumerate() {
        let ks = block(key, ctr.wrapping_add(i as u32), iv);
        out.extend(c.iter().zip(ks).map(|(a, b)| a ^ b));
    }
    out
}
pub fn poly1305(m: &[u8], key: &[u8]) -> Vec<u8> {
    let p = (BigUint::one() << 130usize) - 5u32;
    let mut r = key[..16].to_vec();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = BigUint::from_bytes_le(&r);
    let s = BigUint::from_bytes_le(&key[16..32]);
    let mut acc = BigUint::zero();
    for c in m.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        acc = ((acc + BigUint::from_bytes_le(&b)) * &r) % &p;
    }
    let mut out = (acc + s).to_bytes_le();
    out.resize(out.len().max(16), 0);
    out.truncate(16);
    out
}
/// The accumulator before s is added (for building carry cases).
pub fn aead_data(aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut d = aad.to_vec();
    d.resize((d.len() + 15) / 16 * 16, 0);
    d.extend_from_slice(ct);
    d.resize((d.len() + 15) / 16 * 16, 0);
    d.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    d.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    d
}
pub fn seal(key: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let otk = block(key, 0, iv);
    let ct = xor_stream(key, 1, iv, m);
    let tag = poly1305(&aead_data(aad, &ct), &otk[..32]);
    (ct, tag)
}

pub fn selftest() {
    let key: Vec<u8> = (0..32).collect();
    // RFC 8439 2.3.2
    assert_eq!(
        hex(&block(&key, 1, &unhex("000000090000004a00000000"))),
        "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e"
    );
    // 2.5.2
    assert_eq!(
        hex(&poly1305(
            b"Cryptographic Forum Research Group",
            &unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b")
        )),
        "a8061dc1305136c6c22b8baf0c0127a9"
    );
    // 2.8.2
    let key: Vec<u8> = (0x80..0xa0).collect();
    let m = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let (ct, tag) = seal(&key, &unhex("070000004041424344454647"), &unhex("50515253c0c1c2c3c4c5c6c7"), m);
    assert_eq!(hex(&ct[..16]), "d31a8d34648e60db7b86afbc53ef7ec2");
    assert_eq!(hex(&tag), "1ae10b594f09e26a7e902ecbd0600691");
}
