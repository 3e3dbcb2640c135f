//! C22, C23: certificates and timestamps.

use crate::clock;
use crate::duo::{pair, pattern, secret};
use crate::engine::*;
use curve25519_dalek::edwards::CompressedEdwardsY;
use ed25519_dalek::Signer;
use std::sync::Arc;
use std::time::{Duration, SystemTime};
use stratumv2::codec::{deserialize, serialize};
use stratumv2::noise::{AuthorityKeyPair, CertificateFormat, Signature, SignatureNoiseMessage, SignedCertificate, StaticPublicKey};
use stratumv2::types::system_unix_time_to_u32;
use stratumv2::types::unix_timestamp::unix_u32_now;

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn b58_encode(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u8> = vec![];
    for x in b {
        let mut carry = *x as u32;
        for d in digits.iter_mut() {
            carry += (*d as u32) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let mut s = "1".repeat(zeros);
    s.extend(digits.iter().rev().map(|d| B58[*d as usize] as char));
    s
}

pub fn b58_decode(s: &str) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    for c in s.bytes() {
        let mut carry = B58.iter().position(|x| *x == c)? as u32;
        for b in out.iter_mut() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            out.push(carry as u8);
            carry >>= 8;
        }
    }
    out.extend(s.bytes().take_while(|c| *c == b'1').map(|_| 0));
    out.reverse();
    Some(out)
}

pub fn authority(n: u64) -> AuthorityKeyPair {
    let s = ed25519_dalek::SecretKey::from_bytes(&secret(n ^ 0xA0A0_0000)).unwrap();
    let p = ed25519_dalek::PublicKey::from(&s);
    ed25519_dalek::Keypair { secret: s, public: p }
}

pub fn authority_text(n: u64) -> String {
    b58_encode(authority(n).public.as_bytes())
}

/// The bytes a certificate's signature covers.
pub fn signed_bytes(v: u16, from: u32, until: u32, key: &[u8; 32]) -> Vec<u8> {
    let mut b = v.to_le_bytes().to_vec();
    b.extend_from_slice(&from.to_le_bytes());
    b.extend_from_slice(&until.to_le_bytes());
    b.extend_from_slice(key);
    b
}

/// The certificate message for these fields, signed without the library's signing path.
pub fn signed(auth: u64, v: u16, from: u32, until: u32, key: &[u8; 32]) -> SignatureNoiseMessage {
    SignatureNoiseMessage { version: v, valid_from: from, not_valid_after: until, signature: authority(auth).sign(&signed_bytes(v, from, until, key)) }
}

fn key(b: [u8; 32]) -> Result<StaticPublicKey, String> {
    StaticPublicKey::from_bytes(b).map_err(|e| format!("an ordinary static key is refused: {}", e))
}

/// What the code says: Err for an unusable authority key, else whether the certificate verifies.
fn verdict(auth: &str, k: &StaticPublicKey, m: &SignatureNoiseMessage, now: (i64, u32)) -> Result<bool, String> {
    clock::at(now.0, now.1, || match CertificateFormat::new(auth, k, m) {
        Err(e) => Err(format!("{}", e)),
        Ok(c) => Ok(c.verify().is_ok()),
    })
}

fn expect(auth: &str, k: &StaticPublicKey, m: &SignatureNoiseMessage, now: (i64, u32), want: bool, why: impl Fn() -> String) -> Res {
    let got = verdict(auth, k, m, now);
    if got.as_ref().ok() == Some(&want) || (!want && got.is_err()) {
        return Ok(());
    }
    Err(format!(
        "{} (version {}, window {}..{}, now {}.{:09}): {}",
        why(),
        m.version,
        m.valid_from,
        m.not_valid_after,
        now.0,
        now.1,
        match got {
            Ok(true) => "verifies".to_string(),
            Ok(false) => "does not verify".to_string(),
            Err(e) => format!("authority key refused: {}", e),
        }
    ))
}

fn in_window(from: u32, until: u32, now: i64) -> bool {
    now >= from as i64 && now < until as i64
}

fn times(tier: Tier) -> Vec<u32> {
    let mut v: Vec<u32> = vec![0, 1, 2, 255, 256, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 1_600_000_000, 1_600_000_001];
    if tier == Tier::Thorough {
        for k in [8, 16, 24, 31] {
            for d in -2i64..=2 {
                v.push(((1i64 << k) + d) as u32);
            }
        }
        v.extend([3, 59, 60, 3600, 86_400, 1_600_086_400, 0xffff_fffd]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// All bits of a certificate: version, window, static key, authority key, signature.
const BITS: usize = 16 + 32 + 32 + 256 + 256 + 512;

struct Case {
    v: u16,
    from: u32,
    until: u32,
    key: [u8; 32],
    auth: [u8; 32],
    sig: [u8; 64],
}

impl Case {
    fn flip(&mut self, bit: usize) {
        let mut b = bit;
        if b < 16 {
            self.v ^= 1 << b;
            return;
        }
        b -= 16;
        if b < 32 {
            self.from ^= 1 << b;
            return;
        }
        b -= 32;
        if b < 32 {
            self.until ^= 1 << b;
            return;
        }
        b -= 32;
        if b < 256 {
            self.key[b / 8] ^= 1 << (b % 8);
            return;
        }
        b -= 256;
        if b < 256 {
            self.auth[b / 8] ^= 1 << (b % 8);
            return;
        }
        b -= 256;
        self.sig[b / 8] ^= 1 << (b % 8);
    }
    /// Offers the (altered) certificate; it must not verify. `None`: it cannot even be offered.
    fn refused(&self, why: impl Fn() -> String) -> Res {
        let (k, s) = match (StaticPublicKey::from_bytes(self.key), Signature::from_bytes(&self.sig)) {
            (Ok(k), Ok(s)) => (k, s),
            _ => return Ok(()),
        };
        let m = SignatureNoiseMessage { version: self.v, valid_from: self.from, not_valid_after: self.until, signature: s };
        // Inside the window the certificate claims, so that only the signature can refuse it.
        let now = if self.from < self.until { self.from } else { self.until };
        expect(&b58_encode(&self.auth), &k, &m, (now as i64, 0), false, why)
    }
}

fn genuine(which: u64) -> Case {
    let (v, from, until) = match which % 4 {
        0 => (0u16, 0x5000_0000u32, 0x6000_0000u32),
        1 => (1, 0, u32::MAX),
        2 => (0xffff, 0x1234_5678, 0x1234_5679),
        _ => (0x0100, 0x0000_ffff, 0xff00_0000),
    };
    let key = pair(which + 40).get_public_key().as_bytes();
    let m = signed(which, v, from, until, &key);
    Case { v, from, until, key, auth: authority(which).public.to_bytes(), sig: m.signature.to_bytes() }
}

pub fn c22(tier: Tier) -> Property {
    clock::self_check();
    let mut f = vec![];
    // Time.
    let t = Arc::new(times(tier));
    let nt = t.len();
    let nanos = [0u32, 1, 999_999_999];
    let off = [-1i64, 0, 1];
    {
        let t = t.clone();
        f.push(Family::new(
            "validity window",
            (nt * nt * nt * 3) as u64,
            format!("windows and clock times over {} instants, the clock also one second off and with three sub-second parts", nt),
            move |n, ctx| {
                let mut r = Radix(n);
                let (from, until, at) = (t[r.take(nt)], t[r.take(nt)], t[r.take(nt)]);
                let d = off[r.take(3)];
                let kb = pair(41).get_public_key().as_bytes();
                let k = key(kb)?;
                let m = signed(1, 7, from, until, &kb);
                let a = authority_text(1);
                let now = at as i64 + d;
                for ns in nanos {
                    let fits = (0..=u32::MAX as i64).contains(&now);
                    let want = fits && in_window(from, until, now);
                    ctx.note(|| format!("window {}..{} at {}.{}", from, until, now, ns));
                    expect(&a, &k, &m, (now, ns), want, || "genuine certificate".into())?;
                    ctx.count(if want { "verifies" } else { "refused" });
                    ctx.visit(h(&[22, 1, want as u64, (now < from as i64) as u64, (now >= until as i64) as u64]));
                }
                Ok(())
            },
        ));
    }
    // The same, densely around one window.
    f.push(Family::new("around a window", 60 * 400, "every window of 0..60 seconds, every clock second from 200 before to 200 after", |n, ctx| {
        let mut r = Radix(n);
        let len = r.take(60) as u32;
        let d = r.take(400) as i64 - 200;
        let from = 1_600_000_000u32;
        let kb = pair(41).get_public_key().as_bytes();
        let k = key(kb)?;
        let m = signed(1, 0, from, from + len, &kb);
        let now = from as i64 + d;
        let want = in_window(from, from + len, now);
        expect(&authority_text(1), &k, &m, (now, 500_000_000), want, || "genuine certificate".into())?;
        ctx.visit(h(&[22, 2, want as u64, (d < 0) as u64]));
        Ok(())
    }));
    // A clock that is out of range never verifies anything.
    f.push(Family::new("clock out of range", 9 * 4, "clocks before 1970 and after 2106 with windows that would contain the wrapped time", |n, ctx| {
        let mut r = Radix(n);
        let base = 1_600_000_000i64;
        let now = [-1i64, -base, -(1 << 32) + base, 1 << 32, (1 << 32) + base, (1 << 33) + base, (5 << 32) + base, i32::MIN as i64, 1 << 40][r.take(9)];
        let (from, until) = [(0u32, u32::MAX), (1_500_000_000, 1_700_000_000), (0, 1), (u32::MAX - 1, u32::MAX)][r.take(4)];
        let kb = pair(41).get_public_key().as_bytes();
        let k = key(kb)?;
        let m = signed(1, 0, from, until, &kb);
        expect(&authority_text(1), &k, &m, (now, 1), false, || "clock out of range".into())?;
        ctx.visit(h(&[22, 3]));
        Ok(())
    }));
    // One bit anywhere.
    let sets = tier.pick(4u64, 16);
    f.push(Family::new("one bit", sets * BITS as u64, format!("{} certificates, each single bit of version, window, static key, authority key and signature", sets), move |n, ctx| {
        let mut r = Radix(n);
        let bit = r.take(BITS);
        let mut c = genuine(r.0);
        c.flip(bit);
        ctx.note(|| format!("certificate {} with bit {} changed", r.0, bit));
        ctx.visit(h(&[22, 4, bit as u64]));
        c.refused(|| format!("bit {} changed", bit))
    }));
    // Two bits.
    let step = tier.pick(3usize, 1);
    let nb = BITS / step;
    f.push(Family::new("two bits", (nb * (nb - 1) / 2) as u64, format!("each pair out of every {} bits", if step == 1 { "single one of all".to_string() } else { format!("{}rd of all", step) }), move |n, ctx| {
        // The n-th pair (i < j).
        let mut j = (((8.0 * n as f64 + 1.0).sqrt() + 1.0) / 2.0) as u64;
        while j * (j - 1) / 2 > n {
            j -= 1;
        }
        while (j + 1) * j / 2 <= n {
            j += 1;
        }
        let i = n - j * (j - 1) / 2;
        let (a, b) = (i as usize * step, j as usize * step);
        let mut c = genuine(0);
        c.flip(a);
        c.flip(b);
        ctx.visit(h(&[22, 5, a as u64 / 64, b as u64 / 64]));
        c.refused(|| format!("bits {} and {} changed", a, b))
    }));
    // Bytes replaced.
    f.push(Family::new("one byte", 2 * 256 * (2 + 4 + 4 + 32 + 32 + 64) as u64, "each byte of the certificate replaced by every other value (two certificates)", |n, ctx| {
        let mut r = Radix(n);
        let which = r.take(2) as u64 * 3;
        let x = r.take(256);
        let at = r.take(2 + 4 + 4 + 32 + 32 + 64);
        let mut c = genuine(which);
        for b in 0..8 {
            if x & (1 << b) != 0 {
                c.flip(at * 8 + b);
            }
        }
        ctx.visit(h(&[22, 6, at as u64]));
        if x == 0 {
            ctx.uncounted = true;
            return Ok(());
        }
        c.refused(|| format!("byte {} changed by {:#x}", at, x))
    }));
    // All mixtures of two or three certificates.
    f.push(Family::new("mixtures", 3u64.pow(6), "every mixture of the six parts of three genuine certificates", |n, ctx| {
        let mut r = Radix(n);
        // Different windows that share their clock time.
        let part: [usize; 6] = std::array::from_fn(|_| r.take(3));
        let w = [(1u16, 1_000_000u32, 3_000_000u32), (2, 1_500_000, 3_500_000), (1, 1_500_000, 3_000_000)];
        let keys: Vec<[u8; 32]> = (0..3).map(|i| pair(50 + i).get_public_key().as_bytes()).collect();
        let sigs: Vec<Signature> = (0..3).map(|i| signed(i as u64 + 2, w[i].0, w[i].1, w[i].2, &keys[i]).signature).collect();
        let m = SignatureNoiseMessage { version: w[part[0]].0, valid_from: w[part[1]].1, not_valid_after: w[part[2]].2, signature: sigs[part[5]] };
        let s = part[5];
        let want = m.version == w[s].0 && m.valid_from == w[s].1 && m.not_valid_after == w[s].2 && part[3] == s && part[4] == s;
        ctx.visit(h(&[22, 7, want as u64]));
        expect(&authority_text(part[4] as u64 + 2), &key(keys[part[3]])?, &m, (2_000_000, 0), want, || format!("mixture {:?}", part))
    }));
    // Exchanged and shifted fields: anything that signs the same bytes in another arrangement.
    f.push(Family::new("rearranged", 8 * 8, "signatures over rearranged, truncated or padded certificate bytes never verify", |n, ctx| {
        let mut r = Radix(n);
        let how = r.take(8);
        let which = r.take(8) as u64;
        let c = genuine(which);
        let b = signed_bytes(c.v, c.from, c.until, &c.key);
        let over: Vec<u8> = match how {
            0 => b.clone(),
            1 => b[..b.len() - 1].to_vec(),
            2 => [&b[..], &[0]].concat(),
            3 => signed_bytes(c.v, c.until, c.from, &c.key),
            4 => [&c.v.to_be_bytes()[..], &c.from.to_be_bytes(), &c.until.to_be_bytes(), &c.key].concat(),
            5 => [&c.key[..], &b[..10]].concat(),
            6 => b[2..].to_vec(),
            _ => b[..10].to_vec(),
        };
        let m = SignatureNoiseMessage { version: c.v, valid_from: c.from, not_valid_after: c.until, signature: authority(which).sign(&over) };
        let want = over == b;
        ctx.visit(h(&[22, 8, how as u64]));
        expect(&b58_encode(&c.auth), &key(c.key)?, &m, (c.from as i64, 0), want, || format!("signature over arrangement {}", how))
    }));
    // A signature made equivalent by adding the group order is still a changed signature.
    f.push(Family::new("shifted scalar", 8 * 4, "the signature's scalar plus one to four times the group order", |n, ctx| {
        const L: [u8; 32] = [
            0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
        ];
        let mut r = Radix(n);
        let mut c = genuine(r.take(8) as u64);
        for _ in 0..=r.take(4) {
            let mut carry = 0u32;
            for i in 0..32 {
                carry += c.sig[32 + i] as u32 + L[i] as u32;
                c.sig[32 + i] = carry as u8;
                carry >>= 8;
            }
        }
        ctx.visit(h(&[22, 9]));
        c.refused(|| "scalar shifted by the group order".into())
    }));
    // Every version.
    f.push(Family::new("versions", 65536, "every version: its own certificate verifies through the library's signing path, its neighbours' do not", |n, ctx| {
        let v = n as u16;
        let kb = pair(41).get_public_key().as_bytes();
        let k = key(kb)?;
        let (from, until) = (1_600_000_000 + n as u32, 1_700_000_000u32);
        let cert = SignedCertificate::new(v, from, until, &k).map_err(|e| format!("certificate refused: {}", e))?;
        let m = SignatureNoiseMessage::from_auth_key(&authority(1), &cert).map_err(|e| format!("signing fails: {}", e))?;
        if (m.version, m.valid_from, m.not_valid_after) != (v, from, until) {
            return Err(format!("version {}: the fields of the certificate change when signed", v));
        }
        let a = authority_text(1);
        expect(&a, &k, &m, (from as i64, 0), true, || "genuine certificate".into())?;
        {
            // Over the wire and back.
            let w = serialize(&m).map_err(|e| format!("encoding fails: {}", e))?;
            let m2 = deserialize::<SignatureNoiseMessage>(&w).map_err(|e| format!("decoding fails: {}", e))?;
            expect(&a, &k, &m2, (from as i64, 0), true, || "genuine certificate after a round trip".into())?;
            let m3 = SignatureNoiseMessage::new(&cert, m.signature);
            expect(&a, &k, &m3, (from as i64, 0), true, || "genuine certificate, rebuilt".into())?;
        }
        ctx.visit(h(&[22, 10]));
        for bit in [n % 16, 15 - (n % 8)] {
            let mut x = m.clone();
            x.version ^= 1 << bit;
            expect(&a, &k, &x, (from as i64, 0), false, || format!("version bit {} changed", bit))?;
        }
        Ok(())
    }));
    // Signing: what was signed before does not matter.
    let deep = tier.pick(4u32, 5);
    f.push(Family::new("histories of signing", 12u64.pow(deep), format!("every sequence of {} signings by three authorities of four certificates (two alike but for the key, two alike but for version or window), on a thread of its own in one of 48 histories: each is what the authority signs, verifies under it and no other", deep), move |n, ctx| {
        let mut r = Radix(n);
        let certs: [(u16, u32, u32, u64); 4] = [(1, 1000, 2000, 41), (1, 1000, 2000, 42), (2, 1000, 2000, 41), (1, 1000, 2001, 41)];
        let picks: Vec<(u64, usize)> = (0..deep).map(|_| (r.take(3) as u64 + 1, r.take(4))).collect();
        let go = |picks: &[(u64, usize)]| -> Res {
            for (i, (a, c)) in picks.iter().enumerate() {
                let (v, from, until, k) = certs[*c];
                let kb = pair(k).get_public_key().as_bytes();
                let what = || format!("signing {} of {:?}", i, picks);
                let of = key(kb)?;
                let cert = SignedCertificate::new(v, from, until, &of).map_err(|e| format!("{}: certificate refused: {}", what(), e))?;
                let m = SignatureNoiseMessage::from_auth_key(&authority(*a), &cert).map_err(|e| format!("{}: signing fails: {}", what(), e))?;
                if m.signature.to_bytes() != signed(*a, v, from, until, &kb).signature.to_bytes() || (m.version, m.valid_from, m.not_valid_after) != (v, from, until) {
                    // Another valid signature would do.
                    expect(&authority_text(*a), &key(kb)?, &m, (1500, 0), true, what)?;
                }
                if n % 256 == 0 {
                    for b in 1..=3 {
                        expect(&authority_text(b), &key(kb)?, &m, (1500, 0), b == *a, what)?;
                    }
                }
            }
            Ok(())
        };
        ctx.visit(h(&[22, 13, n]));
        if n % 48 == 0 {
            return std::thread::scope(|s| match s.spawn(|| go(&picks)).join() {
                Ok(x) => x,
                Err(_) => Err("signing panics".into()),
            });
        }
        go(&picks)
    }));
    // Authority keys as text.
    let good = authority_text(1);
    let mut texts: Vec<String> = vec![good.clone(), "".into(), " ".into(), good.to_uppercase(), good.to_lowercase(), format!("{}{}", good, good)];
    let alphabet: Vec<char> = (0u8..128).map(|c| c as char).chain(['é', '１', '\u{200b}', '\u{1F600}']).collect();
    for (i, _) in good.char_indices().chain([(good.len(), ' ')]) {
        for c in &alphabet {
            let mut s = good.clone();
            s.insert(i, *c);
            texts.push(s);
            if i < good.len() {
                let mut s = good.clone();
                s.replace_range(i..i + 1, &c.to_string());
                texts.push(s);
            }
        }
        texts.push(good[..i].to_string());
        texts.push(good[i..].to_string());
        if i < good.len() {
            let mut s = good.clone();
            s.remove(i);
            texts.push(s);
        }
    }
    for z in 0..8 {
        texts.push(format!("{}{}", "1".repeat(z), good));
        texts.push("1".repeat(z * 8));
        texts.push("z".repeat(z * 11));
    }
    // 31- and 33-byte keys, and keys with leading zero bytes.
    for l in [1usize, 16, 31, 33, 64] {
        texts.push(b58_encode(&pattern(5, l)));
    }
    // Keys of other lengths that would be points if padded or cut to 32 bytes.
    for seed in 0..64u64 {
        for l in [1usize, 2, 8, 16, 24, 30, 31, 33, 34, 40, 48, 64] {
            texts.push(b58_encode(&pattern(0x2200 + seed, l)));
        }
        let p = authority(1).public.to_bytes();
        let k = (seed % 32) as usize;
        if seed < 32 {
            let mut b = p.to_vec();
            b.remove(k);
            texts.push(b58_encode(&b));
            for x in [0u8, 1, 0x7f, 0xff] {
                let mut b = p.to_vec();
                b.insert(k, x);
                texts.push(b58_encode(&b));
                let mut b = p.to_vec();
                b.resize(32 + 1 + k, x);
                texts.push(b58_encode(&b));
            }
        }
    }
    texts.sort();
    texts.dedup();
    let texts = Arc::new(texts);
    f.push(Family::new("authority key text", texts.len() as u64, "the authority key's text with every one-character change (132 characters), cuts, insertions, paddings; keys of 12 other lengths, most of them points if padded or cut", move |n, ctx| {
        let s = &texts[n as usize];
        let kb = pair(41).get_public_key().as_bytes();
        let k = key(kb)?;
        let m = signed(1, 3, 1000, 2000, &kb);
        let bytes = b58_decode(s);
        let point = bytes.as_ref().map_or(false, |b| b.len() == 32 && CompressedEdwardsY::from_slice(b).decompress().is_some());
        let got = verdict(s, &k, &m, (1500, 0));
        let mine = bytes.as_deref() == Some(authority(1).public.as_bytes());
        ctx.visit(h(&[22, 11, point as u64, mine as u64]));
        match got {
            Err(_) if point => Err(format!("well-formed authority key {:?} is refused", s)),
            Ok(_) if !point => Err(format!("malformed authority key {:?} is taken", s)),
            Ok(true) if !mine => Err(format!("the certificate verifies under {:?}", s)),
            Ok(false) if mine => Err(format!("the certificate does not verify under {:?}", s)),
            _ => Ok(()),
        }
    }));
    // The order of questions does not matter: nothing is remembered.
    let depth = tier.pick(4usize, 5);
    f.push(Family::new(
        "histories",
        24u64.pow(depth as u32 - 1) * 6,
        format!("every sequence of {} verifications over 4 certificates (two genuine, one forged, one with the other server's key) and 6 clock times", depth),
        move |n, ctx| {
            let mut r = Radix(n);
            let ka = pair(60).get_public_key();
            let kb = pair(61).get_public_key();
            let ma = signed(1, 1, 1000, 2000, &ka.as_bytes());
            let mb = signed(1, 1, 1500, 2500, &kb.as_bytes());
            let mut forged = ma.clone();
            forged.not_valid_after = 3000;
            let a = authority_text(1);
            let open = || -> Result<Vec<CertificateFormat<'_>>, String> {
                [(&ka, &ma), (&kb, &mb), (&ka, &forged), (&kb, &ma)]
                    .iter()
                    .map(|(k, m)| CertificateFormat::new(&a, k, m).map_err(|e| format!("authority key refused: {}", e)))
                    .collect()
            };
            let certs = open()?;
            for d in 0..depth {
                // By symmetry of the clock values the first step starts with certificate 0.
                let which = if d == 0 { 0 } else { r.take(4) };
                let now = [999i64, 1000, 1500, 1999, 2000, 2500][r.take(6)];
                let want = match which {
                    0 => (1000..2000).contains(&now),
                    1 => (1500..2500).contains(&now),
                    _ => false,
                };
                let got = clock::at(now, 0, || certs[which].verify().is_ok());
                ctx.note(|| format!("certificate {} at {}: {}", which, now, got));
                ctx.visit(h(&[22, 12, which as u64, now as u64]));
                if got != want {
                    return Err(format!("step {}: certificate {} at {} {}", d, which, now, if got { "verifies" } else { "does not verify" }));
                }
            }
            Ok(())
        },
    ));
    Property {
        families: f,
        assumptions: vec![
            "signatures of honestly generated authority keys; Ed25519 itself (ed25519-dalek) is trusted to be unforgeable".into(),
            "the wall clock is controlled by answering the process's own clock_gettime calls".into(),
        ],
    }
}

// ---------------------------------------------------------------- C23

fn time_of(secs: i128, nanos: u32) -> Option<SystemTime> {
    if secs >= 0 {
        SystemTime::UNIX_EPOCH.checked_add(Duration::new(u64::try_from(secs).ok()?, nanos))
    } else {
        SystemTime::UNIX_EPOCH.checked_sub(Duration::from_secs(u64::try_from(-secs).ok()?))?.checked_add(Duration::from_nanos(nanos as u64))
    }
}

fn exact(secs: i128, nanos: u32, now: bool, ctx: &mut Ctx) -> Res {
    let want = if (0..1i128 << 32).contains(&secs) { Some(secs as u32) } else { None };
    let t = match time_of(secs, nanos) {
        Some(t) => t,
        None => {
            ctx.uncounted = true;
            return Ok(());
        }
    };
    ctx.note(|| format!("{}.{:09}", secs, nanos));
    let got = system_unix_time_to_u32(&t).ok();
    if got != want {
        return Err(format!("the time {}.{:09} converts to {:?}", secs, nanos, got));
    }
    ctx.visit(h(&[23, want.is_some() as u64, (secs < 0) as u64]));
    if now {
        if let Ok(s) = i64::try_from(secs) {
            let got = clock::at(s, nanos, || unix_u32_now()).ok();
            if got != want {
                return Err(format!("with the clock at {}.{:09} the current time is {:?}", secs, nanos, got));
            }
            ctx.visit(h(&[23, 2, want.is_some() as u64, (secs < 0) as u64]));
        }
    }
    Ok(())
}

pub fn c23(tier: Tier) -> Property {
    clock::self_check();
    let mut f = vec![];
    const NS: [u32; 10] = [0, 1, 2, 499_999_999, 500_000_000, 500_000_001, 999_000_000, 999_999_000, 999_999_998, 999_999_999];
    // Around every power of two.
    f.push(Family::new("around powers of two", 2 * 63 * 401 * 10, "seconds within 200 of every power of two (both signs, up to 2^62), ten sub-second parts, conversion and clock", |n, ctx| {
        let mut r = Radix(n);
        let neg = r.take(2) == 1;
        let p = 1i128 << r.take(63);
        let d = r.take(401) as i128 - 200;
        let ns = NS[r.take(10)];
        let s = if neg { -p + d } else { p + d };
        exact(s, ns, true, ctx)
    }));
    f.push(Family::new("multiples of 2^32", 64 * 401 * 3, "seconds within 200 of every multiple of 2^32 up to 2^38", |n, ctx| {
        let mut r = Radix(n);
        let m = r.take(64) as i128 - 8;
        let d = r.take(401) as i128 - 200;
        exact((m << 32) + d, [0, 1, 999_999_999][r.take(3)], true, ctx)
    }));
    f.push(Family::new("sub-second parts", 7 * tier.pick(1_000_000, 100_000_000u64), "seven instants, sub-second parts in steps (quick: 1000 ns, thorough: 10 ns)", {
        let step = tier.pick(1000u64, 10);
        let count = 1_000_000_000 / step;
        move |n, ctx| {
            let s = [-2i128, -1, 0, 1, (1 << 32) - 2, (1 << 32) - 1, 1 << 32][(n / count) as usize];
            exact(s, ((n % count) * step) as u32, n % 64 == 0, ctx)
        }
    }));
    f.push(Family::new("two bytes", crate::domain::WORD2 * 2, "every 32-bit count of seconds with at most two bytes arbitrary, first and last nanosecond", |n, ctx| {
        let mut r = Radix(n);
        let ns = [0, 999_999_999][r.take(2)];
        exact(crate::domain::word2(r.0) as i128, ns, true, ctx)
    }));
    if tier == Tier::Thorough {
        f.push(Family::new("all seconds", 1 << 32, "all 2^32 representable seconds", |n, _ctx| {
            let t = SystemTime::UNIX_EPOCH + Duration::new(n, (n % 1_000_000_000) as u32);
            if system_unix_time_to_u32(&t).ok() != Some(n as u32) {
                return Err(format!("the time {} converts wrongly", n));
            }
            Ok(())
        }));
    }
    // The clock is read anew every time.
    f.push(Family::new("clock histories", 6u64.pow(tier.pick(5, 7)), "every sequence of clock readings over 6 instants, forwards and backwards", {
        let depth = tier.pick(5, 7);
        move |n, ctx| {
            let mut r = Radix(n);
            for _ in 0..depth {
                let s = [0i64, 1, 1_600_000_000, (1 << 32) - 1, 1 << 32, -1][r.take(6)];
                exact(s as i128, 7, true, ctx)?;
            }
            Ok(())
        }
    }));
    Property {
        families: f,
        assumptions: vec!["the wall clock is controlled by answering the process's own clock_gettime calls".into()],
    }
}
