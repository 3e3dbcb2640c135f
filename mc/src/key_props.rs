//! C21, C27: keys.

use crate::duo::{pair, pattern, secret, session};
use crate::engine::*;
use crate::refnoise as rn;
use crate::refprims::{x25519, x25519_base};
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::str::FromStr;
use std::sync::Arc;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

/// The five u-coordinates of small order, with the two non-canonical encodings below 2^255.
fn low_order() -> Vec<[u8; 32]> {
    let mut v: Vec<[u8; 32]> = vec![];
    let mut k = |s: &str| {
        let mut o = [0u8; 32];
        o.copy_from_slice(&hex::decode(s).unwrap());
        v.push(o);
    };
    k("0000000000000000000000000000000000000000000000000000000000000000");
    k("0100000000000000000000000000000000000000000000000000000000000000");
    k("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800");
    k("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157");
    k("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f");
    k("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f");
    k("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f");
    for i in 0..7 {
        let mut x = v[i];
        x[31] |= 0x80;
        v.push(x);
    }
    v
}

/// Five encodings the library refuses beyond the degenerate ones; its own tests insist on that,
/// so they are not judged.
fn unjudged(b: &[u8; 32]) -> bool {
    const X: [&str; 5] = [
        "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880",
        "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7",
        "d9ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "daffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "dbffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    ];
    X.iter().any(|x| hex::decode(x).unwrap() == b)
}

/// A key is degenerate if it forces the all-zero secret.
fn degenerate(b: &[u8; 32]) -> bool {
    let z = x25519(&secret(900), b) == [0u8; 32];
    let y = x25519(&secret(901), b) == [0u8; 32];
    assert_eq!(z, y, "harness: degenerate for one scalar only");
    z
}

fn texts_of(b: &[u8; 32]) -> [String; 3] {
    let lo = hex::encode(b);
    let up = lo.to_uppercase();
    let mix: String = lo.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect();
    [lo, up, mix]
}

/// From bytes and from text.
fn enters(b: [u8; 32], want_bad: bool, ctx: &mut Ctx) -> Res {
    let check = |how: &str, got: Option<PublicKey>| -> Res {
        match got {
            Some(_) if want_bad => Err(format!("degenerate key {} is taken {}", hex::encode(b), how)),
            None if !want_bad => Err(format!("ordinary key {} is refused {}", hex::encode(b), how)),
            Some(k) if k.as_bytes() != b => Err(format!("key {} becomes {} {}", hex::encode(b), hex::encode(k.as_bytes()), how)),
            _ => Ok(()),
        }
    };
    check("from bytes", PublicKey::from_bytes(b).ok())?;
    for t in texts_of(&b) {
        check("from text", PublicKey::from_str(&t).ok())?;
    }
    ctx.count(if want_bad { "degenerate" } else { "ordinary" });
    ctx.visit(h(&[21, want_bad as u64]));
    Ok(())
}

fn judged_key(b: [u8; 32], ctx: &mut Ctx) -> Res {
    if unjudged(&b) {
        ctx.uncounted = true;
        return Ok(());
    }
    enters(b, degenerate(&b), ctx)
}

/// As the ephemeral key of the first handshake message.
fn in_first(b: [u8; 32], len: usize, keys: u64, ctx: &mut Ctx) -> Res {
    if unjudged(&b) {
        ctx.uncounted = true;
        return Ok(());
    }
    let bad = degenerate(&b);
    let mut m = b.to_vec();
    m.extend(pattern(keys, len - 32));
    let mut s = session(false, b"", keys * 2 + 2, keys * 2 + 4);
    let mut x = m.clone();
    let ok = s.recv_message(&mut x).is_ok();
    ctx.visit(h(&[21, 2, bad as u64]));
    if ok == bad {
        return Err(format!("first message with key {} ({} bytes) is {}", hex::encode(b), len, if ok { "taken" } else { "refused" }));
    }
    if s.is_transport() {
        return Err("complete after the first message".into());
    }
    if bad {
        // Nothing may come of it.
        let mut y = pattern(3, 128);
        if s.send_message(&mut y).is_ok() || s.is_transport() {
            return Err(format!("responder answers a first message with key {}", hex::encode(b)));
        }
    }
    if m.len() >= 96 {
        let mut e = ConnectionEncryptor::new_inbound(Some(pair(keys + 7)));
        let mut x = m;
        let ok = e.recv_handshake(&mut x).is_ok();
        if ok == bad || e.is_handshake_complete() == bad {
            return Err(format!("inbound encryptor given key {}: reply {}, complete {}", hex::encode(b), ok, e.is_handshake_complete()));
        }
    }
    Ok(())
}

/// As ephemeral or static key of the reply, otherwise made exactly as prescribed.
fn in_reply(e: Option<[u8; 32]>, s: Option<[u8; 32]>, payload: usize, keys: u64, prologue: &[u8], ctx: &mut Ctx) -> Res {
    let what = || format!("reply with ephemeral {:?}, static {:?}", e.map(hex::encode), s.map(hex::encode));
    let (se, ss) = (secret(keys + 11), secret(keys + 12));
    let pe = e.unwrap_or_else(|| x25519_base(&se));
    let ps = s.unwrap_or_else(|| x25519_base(&ss));
    let honest = e.is_none() && s.is_none();
    let mut i = session(true, prologue, keys + 1, keys + 3);
    let mut a = pattern(keys, 64);
    i.send_message(&mut a).map_err(|x| format!("first message: {}", x))?;
    let mut r = rn::Responder::new(prologue, ss, se);
    r.read_a(&a);
    let (mut b, _) = r.write_b_with(&pe, &ps, &pattern(9, payload));
    let ok = i.recv_message(&mut b).is_ok();
    ctx.note(|| format!("{}: {}", what(), if ok { "taken" } else { "refused" }));
    ctx.visit(h(&[21, 3, honest as u64, e.is_some() as u64, s.is_some() as u64]));
    if ok != honest || i.is_transport() != honest || i.get_handshake_hash().is_some() != honest || i.get_remote_static_public_key().is_some() != honest {
        return Err(format!("{}: taken {}, complete {}, key reported {}", what(), ok, i.is_transport(), i.get_remote_static_public_key().is_some()));
    }
    // The same to an outbound encryptor.
    if prologue.is_empty() {
        let mut o = ConnectionEncryptor::new_outbound();
        let a = o.init_handshake().map_err(|x| format!("first message: {}", x))?;
        let mut r = rn::Responder::new(prologue, ss, se);
        r.read_a(&a);
        let (mut b, _) = r.write_b_with(&pe, &ps, &pattern(9, payload));
        let ok = o.recv_handshake(&mut b).is_ok();
        if ok != honest || o.is_handshake_complete() != honest || o.get_remote_pubkey().is_some() != honest {
            return Err(format!("outbound encryptor, {}: taken {}, complete {}", what(), ok, o.is_handshake_complete()));
        }
    }
    Ok(())
}

pub fn c21(tier: Tier) -> Property {
    let low = Arc::new(low_order());
    for (i, k) in low.iter().enumerate() {
        assert!(degenerate(k), "harness: low-order key {} is not degenerate", i);
    }
    let mut f = vec![];
    let nl = low.len();
    {
        let low = low.clone();
        f.push(Family::new("degenerate keys", nl as u64, "the 14 encodings of low-order points (5 points, 2 non-canonical forms, ignored top bit) from bytes and text", move |n, ctx| enters(low[n as usize], true, ctx)));
    }
    {
        let low = low.clone();
        f.push(Family::new("near degenerate keys", (nl * 32 * 256) as u64, "each of the 14 with each byte replaced by every value", move |n, ctx| {
            let mut r = Radix(n);
            let mut k = low[r.take(nl)];
            let at = r.take(32);
            k[at] = r.take(256) as u8;
            judged_key(k, ctx)
        }));
    }
    {
        let low = low.clone();
        f.push(Family::new("two bits from degenerate", (nl * 256 * 256) as u64, "each of the 14 with any two bits flipped", move |n, ctx| {
            let mut r = Radix(n);
            let mut k = low[r.take(nl)];
            let (i, j) = (r.take(256), r.take(256));
            if i < j {
                ctx.uncounted = true;
                return Ok(());
            }
            k[i / 8] ^= 1 << (i % 8);
            k[j / 8] ^= 1 << (j % 8);
            judged_key(k, ctx)
        }));
    }
    f.push(Family::new("ends of the range", 4 * 65536, "the lowest and highest 2^16 encodings, with and without the top bit", |n, ctx| {
        let mut r = Radix(n);
        let (high, top) = (r.take(2) == 1, r.take(2) == 1);
        let x = (r.0 as u16).to_le_bytes();
        let mut k = if high { [0xff; 32] } else { [0; 32] };
        k[0] = x[0];
        k[1] = x[1];
        k[31] = (k[31] & 0x7f) | if top { 0x80 } else { 0 };
        judged_key(k, ctx)
    }));
    f.push(Family::new("one and two byte keys", 32 * 31 / 2 * 65536 / tier.pick(16, 1), "keys with two bytes set (quick: a sixteenth of the value pairs)", move |n, ctx| {
        let mut r = Radix(n);
        let mut pr = r.take(32 * 31 / 2);
        let mut i = 0;
        while pr >= 31 - i {
            pr -= 31 - i;
            i += 1;
        }
        let j = i + 1 + pr;
        let v = r.0 * tier.pick(16, 1) + (i * 7 + j) as u64 % tier.pick(16, 1);
        let mut k = [0u8; 32];
        k[i] = v as u8;
        k[j] = (v >> 8) as u8;
        // The reference is only needed where zero is possible at all.
        if k[1..31].iter().any(|x| *x != 0) || (k[31] & 0x7f) != 0 {
            enters(k, false, ctx)
        } else {
            judged_key(k, ctx)
        }
    }));
    f.push(Family::new("honest keys", tier.pick(4096, 65536), "public keys of generated private keys", |n, ctx| {
        let p = x25519_base(&secret(n + 10_000));
        enters(p, false, ctx)?;
        if n % 16 == 0 {
            in_first(p, 32 + (n as usize % 200), n, ctx)?;
        }
        Ok(())
    }));
    {
        let low = low.clone();
        f.push(Family::new("in the first message", (nl * 6 * 8) as u64, "each degenerate key as the initiator's ephemeral key, six sizes, eight key sets", move |n, ctx| {
            let mut r = Radix(n);
            let k = low[r.take(nl)];
            let len = [32usize, 33, 96, 128, 1024, 65535][r.take(6)];
            in_first(k, len, r.take(8) as u64, ctx)
        }));
    }
    {
        let low = low.clone();
        f.push(Family::new("near degenerate in the first message", (nl * 256) as u64, "each of the 14 with any bit flipped, as the initiator's ephemeral key", move |n, ctx| {
            let mut r = Radix(n);
            let mut k = low[r.take(nl)];
            let b = r.take(256);
            k[b / 8] ^= 1 << (b % 8);
            in_first(k, 96, 1, ctx)
        }));
    }
    {
        let low = low.clone();
        f.push(Family::new("in the reply", ((nl + 1) * (nl + 1) * 3 * 4 * 2) as u64, "every combination of degenerate or honest ephemeral and static key in an otherwise perfect reply, three payload sizes, four key sets, two prologues", move |n, ctx| {
            let mut r = Radix(n);
            let e = low.get(r.take(nl + 1)).cloned();
            let s = low.get(r.take(nl + 1)).cloned();
            let p = [0usize, 1, 900][r.take(3)];
            let keys = r.take(4) as u64 * 20;
            in_reply(e, s, p, keys, if r.take(2) == 0 { b"" } else { b"mc" }, ctx)
        }));
    }
    Property {
        families: f,
        assumptions: vec![
            "degeneracy is decided by an independent X25519 (curve25519-dalek's Montgomery ladder)".into(),
            "five encodings that the library's own tests insist on refusing although they are not degenerate are not judged".into(),
        ],
    }
}

// ---------------------------------------------------------------- C27

fn is_hex64(s: &str) -> Option<[u8; 32]> {
    let b = s.as_bytes();
    if b.len() != 64 {
        return None;
    }
    let mut o = [0u8; 32];
    for (i, c) in b.iter().enumerate() {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        };
        o[i / 2] = (o[i / 2] << 4) | d;
    }
    Some(o)
}

fn key_text(s: &str, ctx: &mut Ctx) -> Res {
    let want = is_hex64(s);
    let say = |t: &str, ok: bool| format!("{} from {:?}: {}", t, s, if ok { "taken" } else { "refused" });
    ctx.note(|| format!("{:?}", s));
    match (PrivateKey::from_str(s), want) {
        (Ok(k), Some(w)) => {
            if k != PrivateKey::from_bytes(w) || k.is_empty() != (w == [0; 32]) {
                return Err(format!("PrivateKey from {:?} holds other bytes", s));
            }
        }
        (Err(_), None) => {}
        (r, _) => return Err(say("PrivateKey", r.is_ok())),
    }
    match (Key::from_str(s), want) {
        (Ok(k), Some(w)) if k.is_empty() == (w == [0; 32]) => {}
        (Err(_), None) => {}
        (r, _) => return Err(say("Key", r.is_ok())),
    }
    match (Psk::from_str(s), want) {
        (Ok(k), Some(w)) if k.is_empty() == (w == [0; 32]) => {}
        (Err(_), None) => {}
        (r, _) => return Err(say("Psk", r.is_ok())),
    }
    let judged = want.map_or(true, |w| !unjudged(&w));
    if judged {
        let want = want.filter(|w| !degenerate(w));
        match (PublicKey::from_str(s), want) {
            (Ok(k), Some(w)) => {
                if k.as_bytes() != w || k.is_empty() {
                    return Err(format!("PublicKey from {:?} holds other bytes", s));
                }
            }
            (Err(_), None) => {}
            (r, _) => return Err(say("PublicKey", r.is_ok())),
        }
    }
    ctx.count(if want.is_some() { "a key" } else { "not a key" });
    ctx.visit(h(&[27, want.is_some() as u64, s.len().min(70) as u64]));
    Ok(())
}

/// A pair from these secret bytes.
fn consistent(k: [u8; 32], deep: bool, ctx: &mut Ctx) -> Res {
    let p = x25519_base(&k);
    ctx.note(|| format!("private key {}", hex::encode(k)));
    let what = || hex::encode(k);
    let mut pairs = vec![];
    for (how, r) in [
        ("from_private_key", Keypair::from_private_key(PrivateKey::from_bytes(k))),
        ("from_key", Keypair::from_key(PrivateKey::from_bytes(k))),
    ] {
        match r {
            Ok(x) => pairs.push(x),
            Err(_) if k == [0; 32] => {}
            Err(e) => return Err(format!("{} refuses {}: {}", how, what(), e)),
        }
    }
    let g = PrivateKey::from_bytes(k).generate_public_key();
    if k == [0; 32] {
        if !pairs.is_empty() || g.is_ok() {
            return Err("an empty private key makes a pair".into());
        }
        ctx.visit(h(&[27, 100]));
        return Ok(());
    }
    if g.map(|g| g.as_bytes()).ok() != Some(p) {
        return Err(format!("generate_public_key of {} is not {}", what(), hex::encode(p)));
    }
    if Key::generate_public_key(&k).as_bytes() != p {
        return Err(format!("Key::generate_public_key of {} is not {}", what(), hex::encode(p)));
    }
    for x in &mut pairs {
        if x.get_public_key().as_bytes() != p || x.is_empty() {
            return Err(format!("the pair of {} has the public key {}", what(), hex::encode(x.get_public_key().as_bytes())));
        }
        let kept = x.clone();
        if kept != *x {
            return Err(format!("the clone of the pair of {} differs", what()));
        }
        x.clear();
        if !x.is_empty() || !x.get_public_key().is_empty() {
            return Err(format!("the pair of {} is not empty after erasure", what()));
        }
        // No trace of the secret (or the public key) in its memory.
        let raw = unsafe { std::slice::from_raw_parts(x as *const Keypair as *const u8, std::mem::size_of::<Keypair>()) };
        for (what2, s) in [("private", &k), ("public", &p)] {
            if s.windows(8).any(|w| w.iter().any(|b| *b != 0) && raw.windows(8).any(|r| r == w)) {
                return Err(format!("the erased pair of {} still holds part of its {} key", what(), what2));
            }
        }
        if *x != Keypair::new_empty() {
            return Err(format!("the erased pair of {} is not the empty pair", what()));
        }
        if kept.get_public_key().as_bytes() != p {
            return Err("erasing a pair changes its clone".into());
        }
    }
    ctx.visit(h(&[27, 101]));
    if deep {
        // The pair works as a responder's identity, and an erased one does not.
        for erased in [false, true] {
            let mut kp = match Keypair::from_private_key(PrivateKey::from_bytes(k)) {
                Ok(x) => x,
                Err(e) => return Err(format!("{} refused: {}", what(), e)),
            };
            if erased {
                kp.clear();
            }
            identity(kp, if erased { None } else { Some(p) }).map_err(|e| format!("{}: {}", what(), e))?;
        }
        ctx.visit(h(&[27, 102]));
    }
    Ok(())
}

/// A responder with this pair completes with an initiator, which learns this key; `None`: it
/// must not complete.
fn identity(kp: Keypair, want: Option<[u8; 32]>) -> Res {
    let mut s = noiseexplorer_nx::noisesession::NoiseSession::init_session(false, b"", kp);
    s.set_ephemeral_keypair(pair(5));
    let mut i = session(true, b"", 1, 3);
    let mut a = pattern(1, 64);
    i.send_message(&mut a).map_err(|e| e.to_string())?;
    s.recv_message(&mut a).map_err(|e| e.to_string())?;
    let mut b = pattern(2, 128);
    let sent = s.send_message(&mut b).is_ok();
    let got = sent && i.recv_message(&mut b).is_ok();
    match want {
        Some(p) => {
            let rk = i.get_remote_static_public_key().map(|k| k.as_bytes());
            if !got || !i.is_transport() || rk != Some(p) {
                return Err(format!("handshake {}, key reported {:?}", got, rk.map(hex::encode)));
            }
        }
        None => {
            if got || i.is_transport() {
                return Err("a handshake completes with an erased pair".into());
            }
        }
    }
    Ok(())
}

pub fn c27(tier: Tier) -> Property {
    let mut f = vec![];
    const BASES: [&str; 4] = [
        "31e0303fd6418d2f8c0e78b91f22e8caed0fbe48656dcf4767e4834f701b8f62",
        "ABCDEFabcdef0123456789ABCDEFabcdef0123456789ABCDEFabcdef01234567",
        "0000000000000000000000000000000000000000000000000000000000000009",
        "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    ];
    let chars: Vec<char> = (0u32..0x180).filter_map(char::from_u32).chain(['\u{ff11}', '\u{ff41}', '\u{0661}', '\u{200b}', '\u{feff}', '\u{1d7d8}', '\u{1F600}']).collect();
    let nc = chars.len();
    let chars = Arc::new(chars);
    {
        let chars = chars.clone();
        f.push(Family::new("one character replaced", (4 * 64 * nc) as u64, format!("each of four key texts, each position, each of {} characters", nc), move |n, ctx| {
            let mut r = Radix(n);
            let mut s = BASES[r.take(4)].to_string();
            let at = r.take(64);
            s.replace_range(at..at + 1, &chars[r.take(nc)].to_string());
            key_text(&s, ctx)
        }));
    }
    {
        let chars = chars.clone();
        f.push(Family::new("one character inserted", (4 * 65 * nc) as u64, "inserted at each position, also with the last character dropped to keep the length", move |n, ctx| {
            let mut r = Radix(n);
            let mut s = BASES[r.take(4)].to_string();
            s.insert(r.take(65), chars[r.take(nc)]);
            key_text(&s, ctx)?;
            s.pop();
            key_text(&s, ctx)
        }));
    }
    f.push(Family::new("two characters replaced", 64 * 63 / 2 * 12 * 12, "every pair of positions, twelve characters each", |n, ctx| {
        const C: [&str; 12] = ["0", "f", "F", "g", "G", " ", "x", "-", "_", "\n", "\0", "@"];
        let mut r = Radix(n);
        let (a, b) = (r.take(12), r.take(12));
        let mut pr = r.take(64 * 63 / 2);
        let mut i = 0;
        while pr >= 63 - i {
            pr -= 63 - i;
            i += 1;
        }
        let j = i + 1 + pr;
        let mut s = BASES[0].to_string();
        s.replace_range(i..i + 1, C[a]);
        s.replace_range(j..j + 1, C[b]);
        key_text(&s, ctx)
    }));
    f.push(Family::new("all lengths", 400 * 8, "texts of every length 0..400 of one of eight characters", |n, ctx| {
        let mut r = Radix(n);
        let len = r.take(400);
        let s: String = std::iter::repeat(['0', '1', 'a', 'F', '9', 'g', ' ', 'é'][r.take(8)]).take(len).collect();
        key_text(&s, ctx)
    }));
    // Lengths that a narrower counter takes for 64 digits, or for an even number of them.
    let mut long: Vec<usize> = (400..2200).collect();
    for b in 9..tier.pick(22u32, 27) {
        for d in [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129] {
            long.extend([(1usize << b) + d, (1usize << b) - d, 3 * (1usize << b) + d]);
        }
    }
    let nlong = long.len() as u64;
    f.push(Family::new("long texts", nlong * 2, format!("valid key texts continued with digits, or one digit all along: every length from 400 to 2200, and lengths around powers of two (up to 2^{}) and three times them", tier.pick(22u32, 27)), move |n, ctx| {
        let mut r = Radix(n);
        let good = r.take(2) == 0;
        let len = long[r.0 as usize];
        let mut s = if good { hex::encode(secret(4)) } else { String::new() };
        while s.len() < len {
            let add = (len - s.len()).min(s.len().max(1));
            let t = if s.is_empty() { "1".to_string() } else { s[..add].to_string() };
            s.push_str(&t);
        }
        key_text(&s, ctx)
    }));
    f.push(Family::new("wrapped", 4 * 24 * 24, "every pair of prefix and suffix of whitespace, 0x, quotes, separators", |n, ctx| {
        const W: [&str; 24] = [
            "", " ", "\n", "\t", "\r\n", "0x", "0X", "\"", "'", ":", "h", "x", "0", "00", "\0", "-", "+", ",", ";", "\u{feff}", "\u{200b}", "#", "\\x", "{",
        ];
        let mut r = Radix(n);
        let b = BASES[r.take(4)];
        let s = format!("{}{}{}", W[r.take(24)], b, W[r.take(24)]);
        key_text(&s, ctx)?;
        // And cut back to 64 characters.
        let t: String = s.chars().take(64).collect();
        key_text(&t, ctx)
    }));
    f.push(Family::new("separated", 4 * 64 * 8, "a separator every k characters, also within 64 characters", |n, ctx| {
        let mut r = Radix(n);
        let b = BASES[r.take(4)];
        let k = r.take(64) + 1;
        let sep = [":", " ", "-", "_", "\n", ".", ",", "\0"][r.take(8)];
        let mut s = String::new();
        for (i, c) in b.chars().enumerate() {
            if i > 0 && i % k == 0 {
                s.push_str(sep);
            }
            s.push(c);
        }
        key_text(&s, ctx)?;
        let t: String = s.chars().take(64).collect();
        key_text(&t, ctx)
    }));
    f.push(Family::new("every byte everywhere", 32 * 256 * 4, "each byte value at each position in lower, upper and both mixed cases", |n, ctx| {
        let mut r = Radix(n);
        let at = r.take(32);
        let v = r.take(256) as u8;
        let mut k = secret(77);
        k[at] = v;
        let lo = hex::encode(k);
        let s: String = match r.take(4) {
            0 => lo,
            1 => lo.to_uppercase(),
            2 => lo.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            _ => lo.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        key_text(&s, ctx)
    }));
    // Degenerate keys as text.
    f.push(Family::new("degenerate texts", 14 * 256 * 3, "the degenerate keys as text, each with any bit flipped, three spellings", |n, ctx| {
        let mut r = Radix(n);
        let mut k = low_order()[r.take(14)];
        let b = r.take(256);
        if b != 0 {
            k[b / 8] ^= 1 << (b % 8);
        }
        key_text(&texts_of(&k)[r.take(3)], ctx)
    }));
    // Pairs.
    let keys = tier.pick(20_000u64, 400_000);
    f.push(Family::new("key pairs", keys, "generated private keys", |n, ctx| consistent(secret(n), n % 50 == 0, ctx)));
    f.push(Family::new("odd private keys", 32 * 256 + 2 * 256 * 256, "private keys with one byte set in zeros, and one or two bits in zeros or ones", |n, ctx| {
        let k = if n < 32 * 256 {
            let mut k = [0u8; 32];
            k[n as usize / 256] = (n % 256) as u8;
            k
        } else {
            let mut r = Radix(n - 32 * 256);
            let mut k = if r.take(2) == 0 { [0u8; 32] } else { [0xff; 32] };
            let (i, j) = (r.take(256), r.take(256));
            if i < j {
                ctx.uncounted = true;
                return Ok(());
            }
            k[i / 8] ^= 1 << (i % 8);
            if i != j {
                k[j / 8] ^= 1 << (j % 8);
            }
            k
        };
        consistent(k, n % 97 == 0, ctx)
    }));
    f.push(Family::new("empty", 5, "the empty private key by every constructor, the empty pair, and a pair erased twice", |n, ctx| {
        ctx.visit(h(&[27, 200, n]));
        let bad = |ok: bool, what: &str| if ok { Err(format!("{} yields a pair", what)) } else { Ok(()) };
        match n {
            0 => bad(Keypair::from_private_key(PrivateKey::empty()).is_ok(), "the empty private key"),
            1 => bad(Keypair::from_key(PrivateKey::empty()).is_ok(), "the empty private key"),
            2 => {
                let z = PrivateKey::from_str(&"0".repeat(64)).map_err(|e| format!("zeros as text: {}", e))?;
                bad(Keypair::from_private_key(z).is_ok(), "a private key of zeros")
            }
            3 => {
                let e = Keypair::new_empty();
                if !e.is_empty() || !e.get_public_key().is_empty() || !PrivateKey::empty().is_empty() || !PublicKey::empty().is_empty() {
                    return Err("an empty key is not empty".into());
                }
                identity(e, None)
            }
            _ => {
                let mut k = pair(3);
                k.clear();
                k.clear();
                if !k.is_empty() {
                    return Err("not empty after two erasures".into());
                }
                identity(k, None)
            }
        }
    }));
    // Generated pairs.
    f.push(Family::new("generated pairs", tier.pick(200, 2000), "pairs from the library's own generator: each works as a responder's identity, no two are alike", |_, ctx| {
        let k = Keypair::default();
        let other = Keypair::default();
        if k.is_empty() || k.get_public_key().is_empty() || k == other || k.get_public_key() == other.get_public_key() {
            return Err("the generator repeats itself".into());
        }
        let p = k.get_public_key().as_bytes();
        ctx.visit(h(&[27, 300]));
        identity(k, Some(p))
    }));
    Property {
        families: f,
        assumptions: vec![
            "the matching public key is computed by an independent X25519 (curve25519-dalek)".into(),
            "the bytes of Key and Psk are not observable through the public interface; only acceptance and emptiness are judged".into(),
        ],
    }
}
