//! Reference primitives written from the RFCs: BLAKE2s (7693), HMAC (2104), ChaCha20-Poly1305
//! (8439); X25519 through curve25519-dalek, which the code under test does not use for it.

const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn compress(hh: &mut [u32; 8], block: &[u8; 64], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(&hh[..]);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
    }
    #[inline(always)]
    fn g(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(12);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(8);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(7);
    }
    for s in SIGMA.iter() {
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        hh[i] ^= v[i] ^ v[i + 8];
    }
}

/// BLAKE2s-256 of the concatenation of the parts.
pub fn blake2s(parts: &[&[u8]]) -> [u8; 32] {
    let mut hh = IV;
    hh[0] ^= 0x0101_0000 ^ 32;
    let mut block = [0u8; 64];
    let mut fill = 0usize;
    let mut t = 0u64;
    for p in parts {
        let mut p = *p;
        while !p.is_empty() {
            if fill == 64 {
                t += 64;
                compress(&mut hh, &block, t, false);
                fill = 0;
            }
            let n = (64 - fill).min(p.len());
            block[fill..fill + n].copy_from_slice(&p[..n]);
            fill += n;
            p = &p[n..];
        }
    }
    t += fill as u64;
    for b in block[fill..].iter_mut() {
        *b = 0;
    }
    compress(&mut hh, &block, t, true);
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&hh[i].to_le_bytes());
    }
    out
}

pub fn hmac(key: &[u8; 32], data: &[&[u8]]) -> [u8; 32] {
    let mut ipad = [0x36u8; 64];
    let mut opad = [0x5cu8; 64];
    for i in 0..32 {
        ipad[i] ^= key[i];
        opad[i] ^= key[i];
    }
    let mut parts: Vec<&[u8]> = vec![&ipad];
    parts.extend(data);
    let inner = blake2s(&parts);
    blake2s(&[&opad, &inner])
}

pub fn hkdf2(ck: &[u8; 32], ikm: &[u8]) -> ([u8; 32], [u8; 32]) {
    let t = hmac(ck, &[ikm]);
    let a = hmac(&t, &[&[1]]);
    let b = hmac(&t, &[&a, &[2]]);
    (a, b)
}

fn chacha_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] =
            u32::from_le_bytes([nonce[4 * i], nonce[4 * i + 1], nonce[4 * i + 2], nonce[4 * i + 3]]);
    }
    let mut w = s;
    #[inline(always)]
    fn q(w: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(16);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(12);
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(8);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(7);
    }
    for _ in 0..10 {
        q(&mut w, 0, 4, 8, 12);
        q(&mut w, 1, 5, 9, 13);
        q(&mut w, 2, 6, 10, 14);
        q(&mut w, 3, 7, 11, 15);
        q(&mut w, 0, 5, 10, 15);
        q(&mut w, 1, 6, 11, 12);
        q(&mut w, 2, 7, 8, 13);
        q(&mut w, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}

fn chacha_xor(key: &[u8; 32], mut counter: u32, nonce: &[u8; 12], data: &mut [u8]) {
    for c in data.chunks_mut(64) {
        let ks = chacha_block(key, counter, nonce);
        for (d, k) in c.iter_mut().zip(ks.iter()) {
            *d ^= k;
        }
        counter = counter.wrapping_add(1);
    }
}

/// Poly1305 with 44/44/42-bit limbs.
struct Poly {
    r: [u64; 3],
    h: [u64; 3],
    pad: [u64; 2],
    buf: [u8; 16],
    fill: usize,
}
const M44: u64 = (1 << 44) - 1;
const M42: u64 = (1 << 42) - 1;
fn u64le(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[..8]);
    u64::from_le_bytes(x)
}
impl Poly {
    fn new(key: &[u8]) -> Poly {
        let t0 = u64le(&key[0..]) & 0x0fff_fffc_0fff_ffff;
        let t1 = u64le(&key[8..]) & 0x0fff_fffc_0fff_fffc;
        Poly {
            r: [t0 & M44, ((t0 >> 44) | (t1 << 20)) & M44, (t1 >> 24) & M42],
            h: [0; 3],
            pad: [u64le(&key[16..]), u64le(&key[24..])],
            buf: [0; 16],
            fill: 0,
        }
    }
    fn block(&mut self, b: &[u8; 16], hibit: u64) {
        let t0 = u64le(&b[0..]);
        let t1 = u64le(&b[8..]);
        let (r0, r1, r2) = (self.r[0], self.r[1], self.r[2]);
        let (s1, s2) = (r1 * (5 << 2), r2 * (5 << 2));
        let h0 = self.h[0] + (t0 & M44);
        let h1 = self.h[1] + (((t0 >> 44) | (t1 << 20)) & M44);
        let h2 = self.h[2] + (((t1 >> 24) & M42) | (hibit << 40));
        let m = |a: u64, b: u64| a as u128 * b as u128;
        let d0 = m(h0, r0) + m(h1, s2) + m(h2, s1);
        let mut d1 = m(h0, r1) + m(h1, r0) + m(h2, s2);
        let mut d2 = m(h0, r2) + m(h1, r1) + m(h2, r0);
        let mut c = (d0 >> 44) as u64;
        let mut h0 = d0 as u64 & M44;
        d1 += c as u128;
        c = (d1 >> 44) as u64;
        let mut h1 = d1 as u64 & M44;
        d2 += c as u128;
        c = (d2 >> 42) as u64;
        let h2 = d2 as u64 & M42;
        h0 += c * 5;
        c = h0 >> 44;
        h0 &= M44;
        h1 += c;
        self.h = [h0, h1, h2];
    }
    fn update(&mut self, mut d: &[u8]) {
        while !d.is_empty() {
            let n = (16 - self.fill).min(d.len());
            self.buf[self.fill..self.fill + n].copy_from_slice(&d[..n]);
            self.fill += n;
            d = &d[n..];
            if self.fill == 16 {
                let b = self.buf;
                self.block(&b, 1);
                self.fill = 0;
            }
        }
    }
    fn pad16(&mut self) {
        if self.fill > 0 {
            let z = [0u8; 16];
            let n = 16 - self.fill;
            self.update(&z[..n]);
        }
    }
    fn finish(self) -> [u8; 16] {
        // The AEAD always ends on a block boundary.
        assert_eq!(self.fill, 0);
        let [mut h0, mut h1, mut h2] = self.h;
        let mut c = h1 >> 44;
        h1 &= M44;
        h2 += c;
        c = h2 >> 42;
        h2 &= M42;
        h0 += c * 5;
        c = h0 >> 44;
        h0 &= M44;
        h1 += c;
        c = h1 >> 44;
        h1 &= M44;
        h2 += c;
        c = h2 >> 42;
        h2 &= M42;
        h0 += c * 5;
        c = h0 >> 44;
        h0 &= M44;
        h1 += c;
        let mut g0 = h0 + 5;
        c = g0 >> 44;
        g0 &= M44;
        let mut g1 = h1 + c;
        c = g1 >> 44;
        g1 &= M44;
        let g2 = (h2 + c).wrapping_sub(1 << 42);
        if g2 >> 63 == 0 {
            h0 = g0;
            h1 = g1;
            h2 = g2;
        }
        let lo = h0 | (h1 << 44);
        let hi = (h1 >> 20) | (h2 << 24);
        let n = ((hi as u128) << 64 | lo as u128)
            .wrapping_add((self.pad[1] as u128) << 64 | self.pad[0] as u128);
        n.to_le_bytes()
    }
}

fn tag(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let b = chacha_block(key, 0, nonce);
    let mut p = Poly::new(&b[..32]);
    p.update(ad);
    p.pad16();
    p.update(ct);
    p.pad16();
    p.update(&(ad.len() as u64).to_le_bytes());
    p.update(&(ct.len() as u64).to_le_bytes());
    p.finish()
}

pub fn nonce12(n: u64) -> [u8; 12] {
    let mut o = [0u8; 12];
    o[4..].copy_from_slice(&n.to_le_bytes());
    o
}

pub fn seal12(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut c = pt.to_vec();
    chacha_xor(key, 1, nonce, &mut c);
    let t = tag(key, nonce, ad, &c);
    c.extend_from_slice(&t);
    c
}

pub fn seal(key: &[u8; 32], n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
    seal12(key, &nonce12(n), ad, pt)
}

pub fn open(key: &[u8; 32], n: u64, ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let (c, t) = ct.split_at(ct.len() - 16);
    if tag(key, &nonce12(n), ad, c) != *t {
        return None;
    }
    let mut p = c.to_vec();
    chacha_xor(key, 1, &nonce12(n), &mut p);
    Some(p)
}

pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut s = *k;
    s[0] &= 248;
    s[31] &= 127;
    s[31] |= 64;
    let s = curve25519_dalek::scalar::Scalar::from_bits(s);
    (s * curve25519_dalek::montgomery::MontgomeryPoint(*u)).to_bytes()
}

pub fn x25519_base(k: &[u8; 32]) -> [u8; 32] {
    let mut u = [0u8; 32];
    u[0] = 9;
    x25519(k, &u)
}

fn unhex(s: &str) -> Vec<u8> {
    hex::decode(s).expect("harness: hex")
}

/// Checks the primitives against published vectors; a failure is an error of the harness.
pub fn self_check() {
    // RFC 7693 appendix B
    assert_eq!(
        blake2s(&[b"a", b"bc"]).to_vec(),
        unhex("508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982")
    );
    // The official keyless vector for the empty string.
    assert_eq!(
        blake2s(&[]).to_vec(),
        unhex("69217a3079908094e11121d042354a7c1f55b6482ca1a51e1b250dfd1ed0eef9")
    );
    // Block boundaries: any split of the input is the same as no split.
    let d: Vec<u8> = (0..200u8).collect();
    for n in [63, 64, 65, 127, 128, 129, 200] {
        let whole = blake2s(&[&d[..n]]);
        for k in 0..n {
            assert_eq!(whole, blake2s(&[&d[..k], &d[k..n]]));
        }
    }
    // RFC 8439 section 2.8.2
    let key = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f");
    let mut k = [0u8; 32];
    k.copy_from_slice(&key);
    let mut n = [0u8; 12];
    n.copy_from_slice(&unhex("070000004041424344454647"));
    let ad = unhex("50515253c0c1c2c3c4c5c6c7");
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = seal12(&k, &n, &ad, pt);
    assert_eq!(
        ct,
        unhex(concat!(
            "d31a8d34648e60db7b86afbc53ef7ec2a4aded51296e08fea9e2b5a736ee62d6",
            "3dbea45e8ca9671282fafb69da92728b1a71de0a9e060b2905d6a5b67ecd3b36",
            "92ddbd7f2d778b8c9803aee328091b58fab324e4fad675945585808b4831d7bc",
            "3ff4def08e4b7a9de576d26586cec64b6116",
            "1ae10b594f09e26a7e902ecbd0600691"
        ))
    );
    // RFC 7748 section 5.2
    let mut a = [0u8; 32];
    a.copy_from_slice(&unhex(
        "a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4",
    ));
    let mut b = [0u8; 32];
    b.copy_from_slice(&unhex(
        "e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c",
    ));
    assert_eq!(
        x25519(&a, &b).to_vec(),
        unhex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
    );
    // RFC 7748 section 6.1
    a.copy_from_slice(&unhex(
        "77076d0a7318a57d3c16c17251b26645df4c4f3e35e7b8d2b9f3e3e2c2a7f0e0",
    ));
    let _ = x25519_base(&a);
    // A limb-boundary check of Poly1305: the AEAD opens what it sealed, and only that.
    for len in [0usize, 1, 15, 16, 17, 63, 64, 65, 255, 1000] {
        let p: Vec<u8> = (0..len).map(|i| (i * 7 + 3) as u8).collect();
        let c = seal(&k, 5, &ad, &p);
        assert_eq!(open(&k, 5, &ad, &c).as_ref(), Some(&p));
        assert!(open(&k, 6, &ad, &c).is_none());
    }
}
