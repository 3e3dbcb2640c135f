//! C12 - C20: Noise sessions.

use crate::alloc;
use crate::duo::*;
use crate::engine::*;
use crate::refnoise as rn;
use crate::refprims as rp;
use noiseexplorer_nx::noisesession::NoiseSession;

const PROLOGUES: [&[u8]; 4] = [b"", b"mc", &[0u8; 64], b"a prologue that is longer than one hash block of the BLAKE2s function, really"];

fn assumptions() -> Vec<String> {
    vec![
        "Cryptographic primitives (X25519, ChaCha20-Poly1305, BLAKE2s) are ideal in the symbolic model: no forgery, no collision.".into(),
        "Sessions get fixed static and ephemeral keys through init_session and set_ephemeral_keypair, so every case is reproducible.".into(),
        "Two sessions at most take part in one exploration, plus the recorded messages of a third connection.".into(),
    ]
}

fn text<T>(r: Result<T, noiseexplorer_nx::error::NoiseError>, what: impl Fn() -> String) -> Result<T, String> {
    r.map_err(|e| format!("{}: {}", what(), e))
}

fn quiet(s: &NoiseSession, who: &str) -> Res {
    if s.is_transport() || s.get_handshake_hash().is_some() || s.get_remote_static_public_key().is_some() {
        return Err(format!("{} reports completion, a hash or a remote key before the handshake is done", who));
    }
    Ok(())
}

/// An undisturbed handshake with these sizes, keys and prologue.
fn handshake(na: usize, nb: usize, keys: u64, prologue: &[u8], ctx: &mut Ctx) -> Res {
    handshake_of(na, nb, [keys * 4 + 101, keys * 4 + 102, keys * 4 + 103, keys * 4 + 104], prologue, ctx)
}

/// With the initiator's and the responder's static and ephemeral keys.
fn handshake_of(na: usize, nb: usize, keys: [u64; 4], prologue: &[u8], ctx: &mut Ctx) -> Res {
    let what = || format!("sizes {} and {}, keys {:?}, prologue of {} bytes", na, nb, keys, prologue.len());
    ctx.note(what);
    let [si, sr, ei, er] = keys;
    let mut i = session(true, prologue, si, ei);
    let mut r = session(false, prologue, sr, er);
    quiet(&i, "the initiator")?;
    quiet(&r, "the responder")?;
    let pa = pattern(na as u64 + 1, na);
    let mut a = pa.clone();
    text(i.send_message(&mut a), || format!("{}: the first message cannot be sent", what()))?;
    quiet(&i, "the initiator")?;
    ctx.visit(h(&[12, 1, na as u64]));
    text(r.recv_message(&mut a), || format!("{}: the first message is refused", what()))?;
    quiet(&r, "the responder")?;
    ctx.visit(h(&[12, 2, na as u64]));
    if a[32..] != pa[32..] {
        return Err(format!("{}: the payload of the first message changes", what()));
    }
    let pb = pattern(nb as u64 + 2, nb);
    let mut b = pb.clone();
    text(r.send_message(&mut b), || format!("{}: the reply cannot be sent", what()))?;
    ctx.visit(h(&[12, 3, nb as u64]));
    quiet(&i, "the initiator")?;
    text(i.recv_message(&mut b), || format!("{}: the reply is refused", what()))?;
    ctx.visit(h(&[12, 4, nb as u64]));
    if b[80..nb - MAC] != pb[80..nb - MAC] {
        return Err(format!("{}: the payload of the reply changes", what()));
    }
    if !i.is_transport() || !r.is_transport() {
        return Err(format!("{}: a side does not report completion", what()));
    }
    if i.get_handshake_hash().is_none() || i.get_handshake_hash() != r.get_handshake_hash() {
        return Err(format!("{}: the handshake hashes differ", what()));
    }
    match i.get_remote_static_public_key() {
        Some(k) if k.as_bytes() == rp::x25519_base(&secret(sr)) => {}
        _ => return Err(format!("{}: the initiator does not know the responder's static key", what())),
    }
    Ok(())
}

/// The keys of a handshake, one or more of them with a pattern.
fn special_keys(n: u64) -> [u64; 4] {
    let (k, how) = (SPECIAL + n / 7, n % 7);
    let mut keys = [201, 202, 203, 204];
    match how {
        0..=3 => keys[how as usize] = k,
        4 => keys[..2].fill(k),
        5 => keys[2..].fill(k),
        _ => keys.fill(k),
    }
    keys
}

fn edge_sizes(min: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![min, min + 1, min + 15, min + 16, min + 17, 255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 8191, 8192, 16384, 32767, 32768, 65520, 65534, 65535];
    for n in [min + 31, min + 32, min + 33, min + 63, min + 64, min + 65] {
        v.push(n);
    }
    v.sort();
    v.dedup();
    v.retain(|n| *n >= min);
    v
}

/// Contents that code which looks at contents may take for something else: every byte alone,
/// before and after a text; pairs and triples of special characters; runs; names, keys, frames.
pub fn special_contents(thorough: bool) -> Vec<Vec<u8>> {
    const TEXT: &[u8] = b"stratum+tcp://pool";
    let special: Vec<u8> = if thorough {
        (0..=0x30).chain([b':', b';', b'=', b'\\', b'/', b'"', b'[', b'{', b'}', 0x7f, 0x80, 0xc2, 0xe2, 0xef, 0xf0, 0xfe, 0xff]).collect()
    } else {
        vec![0, 1, 2, 4, 9, 10, 13, 0x1b, b' ', b'"', b'#', b'/', b'0', b':', b'\\', b'{', 0x7f, 0x80, 0xef, 0xfe, 0xff]
    };
    let mut v: Vec<Vec<u8>> = vec![vec![], TEXT.to_vec()];
    let cat = |p: &[&[u8]]| p.concat();
    for b in 0..=255u8 {
        v.push(vec![b]);
        v.push(cat(&[TEXT, &[b]]));
        v.push(cat(&[&[b], TEXT]));
    }
    for a in &special {
        for b in &special {
            v.push(vec![*a, *b]);
            v.push(cat(&[TEXT, &[*a, *b]]));
            v.push(cat(&[&[*a, *b], TEXT]));
            v.push(cat(&[&[*a], TEXT, &[*b]]));
        }
    }
    for b in [0u8, 1, 0x20, 0x30, 0x7f, 0x80, 0xff] {
        for n in (3..=66).chain([96, 112, 127, 128, 129, 255, 256, 257, 1024]) {
            v.push(vec![b; n]);
        }
        for n in [3, 4, 5, 7, 8, 15, 16, 31, 32, 64] {
            v.push(cat(&[TEXT, &vec![b; n]]));
            v.push(cat(&[&vec![b; n], TEXT]));
        }
    }
    for n in [rn::NAME, b"NX", b"STR2", b"STRATUM/2.0", b"\xef\xbb\xbftext", b"\xff\xfet\0", b"http://", b"{\"id\":1}", b"\r\n\r\n"] {
        v.push(n.to_vec());
        v.push(cat(&[n, &[0]]));
        v.push(cat(&[n, TEXT]));
        v.push(rp::blake2s(&[n]).to_vec());
    }
    for k in 101..109 {
        v.push(secret(k).to_vec());
        v.push(rp::x25519_base(&secret(k)).to_vec());
        v.push(hex::encode(rp::x25519_base(&secret(k))).into_bytes());
    }
    // Frames, whole and cut, with and without room for a MAC in what they say of their length.
    for ext in [0u8, 0x80] {
        for t in 0..=255u8 {
            for n in if t < 0x60 { vec![0usize, 10, 40] } else { vec![3] } {
                for said in [n, n + 16] {
                    v.push(cat(&[&[0, ext, t, said as u8, (said >> 8) as u8, 0], &vec![2u8; n]]));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Ends with different prologues do not complete.
fn differing(pi: &[u8], pr: &[u8], ctx: &mut Ctx) -> Res {
    let mut i = session(true, pi, 1, 3);
    let mut r = session(false, pr, 2, 4);
    let mut b = pattern(9, 100);
    text(i.send_message(&mut b), || "send A".into())?;
    text(r.recv_message(&mut b), || "recv A".into())?;
    text(r.send_message(&mut b), || "send B".into())?;
    ctx.visit(h(&[12, 7, pi.len() as u64, pr.len() as u64]));
    if i.recv_message(&mut b).is_ok() {
        return Err(format!("different prologues of {} and {} bytes complete a handshake", pi.len(), pr.len()));
    }
    quiet(&i, "the initiator")
}

pub fn c12(tier: Tier) -> Property {
    let mut f = vec![];
    f.push(Family::new("all first-message sizes", (MAX - MIN_A + 1) as u64, "first message 32..=65535, reply 96", |i, ctx| {
        handshake(MIN_A + i as usize, MIN_B + (i % 3) as usize, i % 5, PROLOGUES[(i % 4) as usize], ctx)
    }));
    f.push(Family::new("all reply sizes", (MAX - MIN_B + 1) as u64, "reply 96..=65535, first message 32", |i, ctx| {
        handshake(MIN_A + (i % 3) as usize, MIN_B + i as usize, i % 5, PROLOGUES[(i % 4) as usize], ctx)
    }));
    let (ea, eb) = (edge_sizes(MIN_A), edge_sizes(MIN_B));
    let keys = tier.pick(4u64, 64);
    f.push(Family::new("edge sizes x keys x prologues", (ea.len() * eb.len() * 4) as u64 * keys, "boundary sizes of both messages, all pairs", move |i, ctx| {
        let mut r = Radix(i);
        let a = ea[r.take(ea.len())];
        let b = eb[r.take(eb.len())];
        let p = PROLOGUES[r.take(4)];
        handshake(a, b, r.take(keys as usize) as u64 + 10, p, ctx)
    }));
    let small = tier.pick(96usize, 640);
    f.push(Family::new("all small size pairs", (small * small) as u64, "first message 32.., reply 96.., all pairs", move |i, ctx| {
        let mut r = Radix(i);
        handshake(MIN_A + r.take(small), MIN_B + r.take(small), 1, b"", ctx)
    }));
    f.push(Family::new("key material", tier.pick(512, 20_000), "pseudo-random key quadruples", |i, ctx| {
        handshake(64, 128, 1000 + i, b"x", ctx)
    }));
    f.push(Family::new("equal keys", 256 * 4 * 4, "every way in which the four keys of the two ends may be equal, four sizes, four prologues", |i, ctx| {
        let mut r = Radix(i);
        let keys = [0; 4].map(|_| 200 + r.take(4) as u64);
        let (a, b) = [(32, 96), (64, 128), (33, 97), (1024, 1024)][r.take(4)];
        handshake_of(a, b, keys, PROLOGUES[r.take(4)], ctx)
    }));
    f.push(Family::new("many keys", tier.pick(20_000, 1_000_000), "pseudo-random key quadruples", |n, ctx| {
        handshake_of(32 + (n % 9) as usize, 96 + (n % 7) as usize, core::array::from_fn(|k| 0x12_0000_0000 + n * 4 + k as u64), b"", ctx)
    }));
    f.push(Family::new("keys with a pattern", SPECIALS * 7, "keys of one bit, all but one bit, one byte all along, runs of zero or full bytes, each as each of the four keys, as both static, both ephemeral, or all keys", |n, ctx| handshake_of(40, 100, special_keys(n), b"", ctx)));
    f.push(Family::new("the library's own constructors", tier.pick(64, 1024), "new_noise_initiator / new_noise_responder", |n, ctx| {
        let mut i = stratumv2::noise::new_noise_initiator();
        let k = pair(n + 5);
        let mut r = stratumv2::noise::new_noise_responder(if n % 2 == 0 { Some(k.clone()) } else { None });
        let mut b = pattern(n, 96 + n as usize);
        quiet(&i, "the initiator")?;
        quiet(&r, "the responder")?;
        text(i.send_message(&mut b), || "send A".into())?;
        text(r.recv_message(&mut b), || "recv A".into())?;
        text(r.send_message(&mut b), || "send B".into())?;
        quiet(&i, "the initiator")?;
        text(i.recv_message(&mut b), || "recv B".into())?;
        ctx.visit(h(&[12, 5, n]));
        if !i.is_transport() || !r.is_transport() || i.get_handshake_hash() != r.get_handshake_hash() {
            return Err("the two ends do not agree".into());
        }
        let got = i.get_remote_static_public_key().ok_or("no remote key")?;
        if n % 2 == 0 && got != k.get_public_key() {
            return Err("the initiator learns another key than the responder's".into());
        }
        if n % 2 == 1 && got.is_empty() {
            return Err("the initiator learns an empty key".into());
        }
        Ok(())
    }));
    // Differing prologues.
    f.push(Family::new("differing prologues", 16 * 40, "all ordered pairs of prologues, and prologues differing in one byte or in length", |n, ctx| {
        let mut r = Radix(n);
        let (x, y, k) = (r.take(4), r.take(4), r.take(40));
        let mut pi = PROLOGUES[x].to_vec();
        let mut pr = PROLOGUES[y].to_vec();
        if x == y {
            match k {
                0 => pr.push(0),
                1 => pr.insert(0, 0),
                k => {
                    if pr.is_empty() {
                        pr = vec![k as u8];
                    } else {
                        let at = (k * 7) % pr.len();
                        pr[at] ^= 1 << (k % 8);
                    }
                }
            }
        }
        if k % 2 == 1 {
            std::mem::swap(&mut pi, &mut pr);
        }
        let mut i = session(true, &pi, 1, 3);
        let mut r = session(false, &pr, 2, 4);
        let mut b = pattern(k as u64, 96 + k);
        text(i.send_message(&mut b), || "send A".into())?;
        text(r.recv_message(&mut b), || "recv A".into())?;
        text(r.send_message(&mut b), || "send B".into())?;
        ctx.visit(h(&[12, 6, n]));
        if i.recv_message(&mut b).is_ok() {
            return Err(format!("prologues {} and {} complete a handshake", hex::encode(&pi), hex::encode(&pr)));
        }
        quiet(&i, "the initiator")
    }));
    // Long prologues: a difference anywhere counts.
    let lens: Vec<usize> = (0..=tier.pick(130, 300)).chain([255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70_000, 1 << 17]).collect();
    let nl = lens.len();
    f.push(Family::new(
        "long prologues, one difference",
        (nl * 12) as u64,
        "prologues of each length up to 130 (300) and of boundary lengths up to 131072, one end's changed at its first, last or a middle byte, cut or extended at either end; and equal ones complete",
        move |n, ctx| {
            let mut r = Radix(n);
            let (len, k) = (lens[r.take(nl)], r.take(12));
            let p = pattern(len as u64, len);
            let mut q = p.clone();
            match k {
                0 => return handshake(40, 100, 3, &p, ctx),
                1 => q.push(0),
                2 => q.push(1),
                3 => q.insert(0, 0),
                4 => q.extend_from_slice(&p.clone()),
                _ if len == 0 => return Ok(()),
                5 => {
                    q.pop();
                }
                6 => {
                    q.remove(0);
                }
                7 => q.truncate(len / 2),
                8 => q[0] ^= 1,
                9 => q[len - 1] ^= 0x80,
                10 => q[len / 2] ^= 4,
                _ => {
                    q.rotate_left(1);
                    if q == p {
                        return Ok(());
                    }
                }
            }
            if q == p {
                return Ok(());
            }
            differing(&p, &q, ctx)?;
            differing(&q, &p, ctx)
        },
    ));
    let long = tier.pick(300usize, 1100);
    f.push(Family::new("long prologues, every byte", long as u64, format!("prologues of {} bytes that differ in one bit of one byte, every byte", long), move |n, ctx| {
        let p = pattern(5, long);
        let mut q = p.clone();
        q[n as usize] ^= 1 << (n % 8);
        differing(&p, &q, ctx)
    }));
    // What prologues consist of.
    let all = std::sync::Arc::new(special_contents(tier.thorough()));
    f.push(Family::new(
        "contents of prologues",
        all.len() as u64,
        "each of several thousand contents (every byte alone, before and after a text; pairs of special characters there; runs; names, keys, frames): equal prologues complete, and one end's without its first or last byte, its text, or with a further one does not",
        {
            let all = all.clone();
            move |n, ctx| {
                let p = &all[n as usize];
                handshake(40, 100, 3, p, ctx)?;
                let mut others: Vec<Vec<u8>> = vec![];
                for k in 1..=2 {
                    if p.len() >= k {
                        others.push(p[k..].to_vec());
                        others.push(p[..p.len() - k].to_vec());
                    }
                }
                let mut q = p.clone();
                q.push(p.last().copied().unwrap_or(0));
                others.push(q);
                let q: Vec<u8> = p.iter().map(|b| b.to_ascii_uppercase()).collect();
                if q != *p {
                    others.push(q);
                }
                others.dedup();
                for (k, q) in others.iter().enumerate() {
                    if (n as usize + k) % 2 == 0 {
                        differing(p, q, ctx)?;
                    } else {
                        differing(q, p, ctx)?;
                    }
                }
                Ok(())
            }
        },
    ));
    // Which thread makes which call.
    f.push(Family::new(
        "calls on different threads",
        3 * 256 * 2,
        "keys given, generated, or by the library's own constructors; each of the eight calls (two openings, two sends, two receipts, and a message each way) on the caller's thread or on one of its own; with the thread alive until the end or ended",
        |n, ctx| {
            let mut r = Radix(n);
            let (how, mask, alive) = (r.take(3), r.take(256), r.take(2) == 1);
            threads(how, mask, alive, ctx)
        },
    ));
    // Observations at every step of every call order.
    for (n, s) in [([true, false], "initiator, responder"), ([false, true], "responder, initiator")] {
        f.push(sequences(
            format!("facts during exchanges ({})", s),
            Setup { roles: n, watch: Watch { facts: true, harmless: false }, up: false },
            tier.pick(7, 8),
            20,
            Box::new(|d: &Duo| exchange_alphabet(d, false)),
        ));
    }
    Property { families: f, assumptions: assumptions() }
}

struct Carry<T>(T);
// Safety: one thread uses it at a time.
unsafe impl<T> Send for Carry<T> {}

/// A handshake and a message each way, each call on the caller's thread or (a bit of `mask`) on
/// another one, which goes on living (`alive`) or ends.
fn threads(how: usize, mask: usize, alive: bool, ctx: &mut Ctx) -> Res {
    use std::sync::mpsc::{channel, Sender};
    let mut kept: Vec<(Sender<()>, std::thread::JoinHandle<()>)> = vec![];
    let mut step = 0;
    let mut on = |f: &mut dyn FnMut() -> Res| -> Res {
        let there = mask >> step & 1 == 1;
        step += 1;
        if !there {
            return f();
        }
        let (done, wait) = channel();
        let (stop, stopped) = channel::<()>();
        // Safety: this frame waits for the answer, so what `f` borrows outlives its use.
        let f: Carry<&'static mut dyn FnMut() -> Res> = Carry(unsafe { std::mem::transmute::<&mut dyn FnMut() -> Res, &'static mut dyn FnMut() -> Res>(f) });
        let t = std::thread::Builder::new()
            .spawn(move || {
                let f = f;
                let out = guarded(|| (f.0)()).unwrap_or_else(Err);
                let _ = done.send(out);
                let _ = stopped.recv();
            })
            .map_err(|e| format!("harness: no thread: {}", e))?;
        let out = wait.recv().map_err(|e| format!("harness: a thread is gone: {}", e))?;
        if alive {
            kept.push((stop, t));
        } else {
            drop(stop);
            let _ = t.join();
        }
        out
    };
    let what = || format!("keys {}, calls {:08b} elsewhere, {}", ["given", "generated", "of the constructors"][how], mask, if alive { "threads alive" } else { "threads ended" });
    ctx.note(what);
    let (mut i, mut r) = (None, None);
    let out = (|| -> Res {
        on(&mut || {
            i = Some(match how {
                0 => session(true, b"mc", 221, 223),
                1 => NoiseSession::init_session(true, b"mc", pair(221)),
                _ => stratumv2::noise::new_noise_initiator(),
            });
            Ok(())
        })?;
        on(&mut || {
            r = Some(match how {
                0 => session(false, b"mc", 222, 224),
                1 => NoiseSession::init_session(false, b"mc", pair(222)),
                _ => stratumv2::noise::new_noise_responder(Some(pair(222))),
            });
            Ok(())
        })?;
        let (i, r) = (i.as_mut().ok_or("harness")?, r.as_mut().ok_or("harness")?);
        let mut m = pattern(5, 70);
        on(&mut || text(i.send_message(&mut m), || "send A".into()))?;
        on(&mut || text(r.recv_message(&mut m), || "A is refused".into()))?;
        let mut m = pattern(6, 130);
        on(&mut || text(r.send_message(&mut m), || "send B".into()))?;
        on(&mut || text(i.recv_message(&mut m), || "B is refused".into()))?;
        if m[80..114] != pattern(6, 130)[80..114] {
            return Err("the payload of the reply changes".into());
        }
        if !i.is_transport() || !r.is_transport() || i.get_handshake_hash().is_none() || i.get_handshake_hash() != r.get_handshake_hash() {
            return Err("the ends do not agree".into());
        }
        match i.get_remote_static_public_key() {
            Some(k) if k.as_bytes() == rp::x25519_base(&secret(222)) => {}
            _ => return Err("the initiator does not know the responder's static key".into()),
        }
        for k in 0..4u64 {
            let mut m = pattern(k, 40);
            let (from, to) = if k % 2 == 0 { (&mut *i, &mut *r) } else { (&mut *r, &mut *i) };
            on(&mut || {
                text(from.send_message(&mut m), || "send a message".into())?;
                Ok(())
            })?;
            text(to.recv_message(&mut m), || "a message is refused".into())?;
            if m[..24] != pattern(k, 40)[..24] {
                return Err("a message changes".into());
            }
        }
        Ok(())
    })();
    for (stop, t) in kept {
        drop(stop);
        let _ = t.join();
    }
    ctx.visit(h(&[12, 20, how as u64, mask as u64, alive as u64]));
    ctx.transitions += 12;
    out.map_err(|e| format!("{}: {}", what(), e))
}

/// Sends, and deliveries of everything recorded so far to everybody.
fn exchange_alphabet(d: &Duo, garbage: bool) -> Vec<Act> {
    let mut v = vec![];
    for x in 0..2u8 {
        v.push(Act::Send(x, HS_LEN));
    }
    for x in 0..2u8 {
        for i in 0..d.log.len() {
            v.push(Act::Recv(x, Src::Log(i as u8), Alt::Exact));
        }
        if garbage {
            v.push(Act::Recv(x, Src::Noise(HS_LEN), Alt::Exact));
        }
    }
    v
}

// ---------------------------------------------------------------- C13

struct Ref {
    i: rn::Initiator,
    r: rn::Responder,
}

fn conformance(na: usize, nb: usize, keys: u64, prologue: &[u8], ctx: &mut Ctx) -> Result<(NoiseSession, NoiseSession, rn::Done), String> {
    conformance_of(pattern(na as u64 + 1, na), pattern(nb as u64 + 2, nb), keys, prologue, ctx)
}

/// With these buffers handed to the two sending calls.
fn conformance_of(pa: Vec<u8>, pb: Vec<u8>, keys: u64, prologue: &[u8], ctx: &mut Ctx) -> Result<(NoiseSession, NoiseSession, rn::Done), String> {
    conformance_with(pa, pb, [keys * 4 + 101, keys * 4 + 102, keys * 4 + 103, keys * 4 + 104], prologue, ctx)
}

/// With the initiator's and the responder's static and ephemeral keys.
fn conformance_with(pa: Vec<u8>, pb: Vec<u8>, keys: [u64; 4], prologue: &[u8], ctx: &mut Ctx) -> Result<(NoiseSession, NoiseSession, rn::Done), String> {
    let (na, nb) = (pa.len(), pb.len());
    let [si, sr, ei, er] = keys;
    let what = || format!("sizes {} and {}, keys {:x?}, prologue of {} bytes", na, nb, keys, prologue.len());
    ctx.note(what);
    let mut i = session(true, prologue, si, ei);
    let mut r = session(false, prologue, sr, er);
    let mut m = Ref {
        i: rn::Initiator::new(prologue, secret(ei)),
        r: rn::Responder::new(prologue, secret(sr), secret(er)),
    };
    // -> e
    let want_a = m.i.write_a(&pa[32..]);
    let mut a = pa.clone();
    text(i.send_message(&mut a), || format!("{}: send A", what()))?;
    if a != want_a {
        return Err(format!("{}: the first message is not what Noise prescribes", what()));
    }
    ctx.visit(h(&[13, 1, na as u64]));
    let got = m.r.read_a(&a).ok_or("harness: reference refuses A")?;
    text(r.recv_message(&mut a), || format!("{}: receive A", what()))?;
    if got[..] != a[32..] {
        return Err(format!("{}: the payload of A differs", what()));
    }
    // <- e, ee, s, es
    let (want_b, done) = m.r.write_b(&pb[80..nb - MAC]);
    let mut b = pb.clone();
    text(r.send_message(&mut b), || format!("{}: send B", what()))?;
    if b != want_b {
        return Err(format!("{}: the reply is not what Noise prescribes", what()));
    }
    ctx.visit(h(&[13, 2, nb as u64]));
    let (payload, rs, done_i) = m.i.read_b(&b).ok_or("harness: reference refuses B")?;
    text(i.recv_message(&mut b), || format!("{}: receive B", what()))?;
    if payload[..] != b[80..nb - MAC] {
        return Err(format!("{}: the payload of B differs", what()));
    }
    ctx.visit(h(&[13, 3, nb as u64]));
    if done_i.h != done.h || done_i.c1.k != done.c1.k {
        return Err("harness: the reference disagrees with itself".into());
    }
    if i.get_handshake_hash() != Some(done.h) || r.get_handshake_hash() != Some(done.h) {
        return Err(format!("{}: the handshake hash is not what Noise prescribes", what()));
    }
    match i.get_remote_static_public_key() {
        Some(k) if k.as_bytes() == rs => {}
        _ => return Err(format!("{}: wrong remote static key", what())),
    }
    Ok((i, r, done))
}

/// One transport message of n bytes (MAC included) from one side, checked byte for byte; the
/// receiver is handed the reference's bytes.
fn transport(from: &mut NoiseSession, to: &mut NoiseSession, tx: &mut rn::Cs, n: usize, seed: u64) -> Res {
    transport_of(from, to, tx, pattern(seed, n))
}

/// This buffer, the last 16 bytes of which are room for the MAC.
fn transport_of(from: &mut NoiseSession, to: &mut NoiseSession, tx: &mut rn::Cs, plain: Vec<u8>) -> Res {
    let n = plain.len();
    let want = tx.seal(&[], &plain[..n - MAC]);
    let mut b = plain.clone();
    text(from.send_message(&mut b), || format!("send message {} of {} bytes", tx.n - 1, n))?;
    if b != want {
        return Err(format!("message {} of {} bytes is not what Noise prescribes", tx.n - 1, n));
    }
    let mut b = want;
    text(to.recv_message(&mut b), || format!("message {} of {} bytes is refused", tx.n - 1, n))?;
    if b[..n - MAC] != plain[..n - MAC] {
        return Err(format!("message {} of {} bytes changes in transit", tx.n - 1, n));
    }
    Ok(())
}

pub fn c13(tier: Tier) -> Property {
    rp::self_check();
    let mut f = vec![];
    f.push(Family::new("all first-message sizes", (MAX - MIN_A + 1) as u64, "32..=65535, byte for byte against the reference, then one message each way", |i, ctx| {
        let (mut a, mut b, mut d) = conformance(MIN_A + i as usize, MIN_B + (i % 3) as usize, i % 5, PROLOGUES[(i % 4) as usize], ctx)?;
        transport(&mut a, &mut b, &mut d.c1, 16 + (i % 40) as usize, i)?;
        transport(&mut b, &mut a, &mut d.c2, 16 + (i % 41) as usize, i)
    }));
    f.push(Family::new("all reply sizes", (MAX - MIN_B + 1) as u64, "96..=65535, byte for byte against the reference, then one message each way", |i, ctx| {
        let (mut a, mut b, mut d) = conformance(MIN_A + (i % 3) as usize, MIN_B + i as usize, i % 5, PROLOGUES[(i % 4) as usize], ctx)?;
        transport(&mut b, &mut a, &mut d.c2, 16 + (i % 41) as usize, i)?;
        transport(&mut a, &mut b, &mut d.c1, 16 + (i % 40) as usize, i)
    }));
    let (ea, eb) = (edge_sizes(MIN_A), edge_sizes(MIN_B));
    f.push(Family::new("edge sizes x keys x prologues", (ea.len() * eb.len() * 4) as u64 * 2, "boundary sizes of both messages", move |i, ctx| {
        let mut r = Radix(i);
        let a = ea[r.take(ea.len())];
        let b = eb[r.take(eb.len())];
        let p = PROLOGUES[r.take(4)];
        let k = r.take(2) as u64;
        conformance(a, b, 20 + k, p, ctx).map(|_| ())
    }));
    f.push(Family::new("prologue lengths", tier.pick(300, 5000), "every prologue length", |n, ctx| {
        conformance(40, 100, n % 7, &pattern(n, n as usize), ctx).map(|_| ())
    }));
    f.push(Family::new("keys with a pattern", SPECIALS * 7, "keys of one bit, all but one bit, one byte all along, runs of zero or full bytes, each as each of the four keys, as both static, both ephemeral, or all keys", |n, ctx| {
        let (mut a, mut b, mut d) = conformance_with(pattern(3, 40), pattern(4, 100), special_keys(n), b"", ctx)?;
        transport(&mut a, &mut b, &mut d.c1, 24, n)?;
        transport(&mut b, &mut a, &mut d.c2, 24, n)
    }));
    f.push(Family::new("key material", tier.pick(8000, 200_000), "pseudo-random key quadruples", |n, ctx| {
        conformance(32, 96, 5000 + n, b"", ctx).map(|_| ())
    }));
    // Every transport size, both directions.
    let step = 64usize;
    f.push(Family::new("all transport sizes", ((MAX - MAC) / step + 1) as u64, "16..=65535 bytes, both directions, consecutive messages", move |n, ctx| {
        let (mut a, mut b, mut d) = conformance(32, 96, 3, b"", ctx)?;
        let lo = MAC + n as usize * step;
        for len in lo..(lo + step).min(MAX + 1) {
            transport(&mut a, &mut b, &mut d.c1, len, len as u64)?;
            transport(&mut b, &mut a, &mut d.c2, len, len as u64 + 1)?;
            ctx.visit(h(&[13, 4, len as u64]));
        }
        Ok(())
    }));
    // Every sequence of send / rekey operations, byte for byte.
    let depth = tier.pick(5u32, 7);
    f.push(Family::new(
        "operation sequences",
        6u64.pow(depth),
        format!("every sequence of {} operations: message I->R, message R->I, rekey of either direction at both ends, refused message at either end", depth),
        move |n, ctx| {
            let mut r = Radix(n);
            let (mut a, mut b, mut d) = up_pair()?;
            for s in 0..depth as u64 {
                let op = r.take(6);
                ctx.note(|| format!("op {}", op));
                match op {
                    0 => transport(&mut a, &mut b, &mut d.c1, 40, s)?,
                    1 => transport(&mut b, &mut a, &mut d.c2, 40, s + 50)?,
                    2 => {
                        a.rekey_local_cipherstate();
                        b.rekey_local_cipherstate();
                        d.c1.rekey();
                    }
                    3 => {
                        a.rekey_remote_cipherstate();
                        b.rekey_remote_cipherstate();
                        d.c2.rekey();
                    }
                    k => {
                        let s = if k == 4 { &mut a } else { &mut b };
                        if s.recv_message(&mut pattern(9, 40)).is_ok() {
                            return Err("accepts bytes nobody sent".into());
                        }
                    }
                }
                ctx.visit(h(&[13, 5, d.c1.n, d.c2.n, d.c1.k[0] as u64, d.c2.k[0] as u64]));
            }
            Ok(())
        },
    ));
    // Interoperation: a real initiator with the reference responder and the other way round.
    f.push(Family::new("mixed pairs", tier.pick(400, 4000), "real initiator with reference responder and vice versa, several sizes and keys", |n, ctx| {
        let p = PROLOGUES[(n % 4) as usize];
        let (si, sr, ei, er) = (n + 1, n + 2, n + 3, n + 4);
        let na = 32 + (n as usize * 37) % 3000;
        let nb = 96 + (n as usize * 53) % 3000;
        if n % 2 == 0 {
            let mut i = session(true, p, si, ei);
            let mut r = rn::Responder::new(p, secret(sr), secret(er));
            let mut a = pattern(n, na);
            text(i.send_message(&mut a), || "send A".into())?;
            r.read_a(&a).ok_or("harness: reference refuses A")?;
            let (mut b, mut d) = r.write_b(&pattern(n, nb)[80..nb - MAC]);
            text(i.recv_message(&mut b), || "the reply of a conforming responder is refused".into())?;
            if i.get_handshake_hash() != Some(d.h) {
                return Err("handshake hash differs from a conforming responder's".into());
            }
            for k in 0..4 {
                let mut m = pattern(k, 50);
                text(i.send_message(&mut m), || "send".into())?;
                match d.c1.open(&[], &m) {
                    Some(x) if x[..] == pattern(k, 50)[..34] => {}
                    _ => return Err("a conforming responder cannot read the message".into()),
                }
                let mut m = d.c2.seal(&[], &pattern(k, 30));
                text(i.recv_message(&mut m), || "message of a conforming responder refused".into())?;
                if m[..30] != pattern(k, 30)[..] {
                    return Err("message of a conforming responder changes".into());
                }
            }
        } else {
            let mut r = session(false, p, sr, er);
            let mut i = rn::Initiator::new(p, secret(ei));
            let mut a = i.write_a(&pattern(n, na)[32..]);
            text(r.recv_message(&mut a), || "the first message of a conforming initiator is refused".into())?;
            let mut b = pattern(n, nb);
            text(r.send_message(&mut b), || "send B".into())?;
            let (pl, rs, mut d) = i.read_b(&b).ok_or("a conforming initiator refuses the reply")?;
            if pl[..] != pattern(n, nb)[80..nb - MAC] || rs != rp::x25519_base(&secret(sr)) {
                return Err("a conforming initiator reads something else".into());
            }
            if r.get_handshake_hash() != Some(d.h) {
                return Err("handshake hash differs from a conforming initiator's".into());
            }
            for k in 0..4 {
                let mut m = pattern(k, 50);
                text(r.send_message(&mut m), || "send".into())?;
                match d.c2.open(&[], &m) {
                    Some(x) if x[..] == pattern(k, 50)[..34] => {}
                    _ => return Err("a conforming initiator cannot read the message".into()),
                }
                let mut m = d.c1.seal(&[], &pattern(k, 30));
                text(r.recv_message(&mut m), || "message of a conforming initiator refused".into())?;
                if m[..30] != pattern(k, 30)[..] {
                    return Err("message of a conforming initiator changes".into());
                }
            }
        }
        ctx.visit(h(&[13, 6, n]));
        Ok(())
    }));
    // What prologues, payloads and messages consist of.
    let all = std::sync::Arc::new(special_contents(tier.thorough()));
    f.push(Family::new(
        "contents",
        all.len() as u64 * 3,
        "each of several thousand contents (every byte alone, before and after a text; pairs of special characters there; runs; names, keys, frames) as the prologue, the payload of the first message or of the reply, and as messages both ways",
        {
            let all = all.clone();
            move |n, ctx| {
                let (c, at) = (&all[n as usize / 3], n % 3);
                let buf = |head: usize, tail: usize, c: &[u8]| [&vec![7u8; head], c, &vec![9u8; tail]].concat();
                let (a, b, p): (&[u8], &[u8], &[u8]) = match at {
                    0 => (b"", b"x", c),
                    1 => (c, b"", b"mc"),
                    _ => (b"abc", c, b""),
                };
                let (mut x, mut y, mut d) = conformance_of(buf(32, 0, a), buf(80, MAC, b), 30, p, ctx).map_err(|e| format!("{} ({} {})", e, ["prologue", "first payload", "second payload"][at as usize], hex::encode(c)))?;
                for _ in 0..2 {
                    transport_of(&mut x, &mut y, &mut d.c1, buf(0, MAC, c)).map_err(|e| format!("{}: {}", hex::encode(c), e))?;
                    transport_of(&mut y, &mut x, &mut d.c2, buf(0, MAC, c)).map_err(|e| format!("{}: {}", hex::encode(c), e))?;
                }
                ctx.visit(h(&[13, 8, n]));
                Ok(())
            }
        },
    ));
    f.push(Family::new("short messages of every content", 256 * 2, "every message of one and of two bytes, either way", |n, ctx| {
        let (mut a, mut b, mut d) = up_pair()?;
        for k in 0..257u32 {
            let mut m = vec![(n / 2) as u8];
            if k < 256 {
                m.push(k as u8);
            }
            m.extend([k as u8; MAC]);
            if n % 2 == 0 {
                transport_of(&mut a, &mut b, &mut d.c1, m)?;
            } else {
                transport_of(&mut b, &mut a, &mut d.c2, m)?;
            }
            ctx.visit(h(&[13, 9, n, k as u64]));
        }
        Ok(())
    }));
    if let Ok(Some(w)) = guarded(nonce_places) {
        let whole = w.iter().flatten().all(|p| p.high.is_some());
        let top = if whole { 63 } else { 31 };
        f.push(Family::new("numbers around powers of two", top * 2, "messages numbered from 10 below to 10 above each power of two, either way, byte for byte (the number is set in the session's memory)", move |n, ctx| {
            numbers((n % 2) as usize, (1u64 << (n / 2)).saturating_sub(10), 20, &w, false, false, ctx)
        }));
    }
    // Where in memory the caller's buffers lie.
    let spans = tier.pick(200u64, 1100);
    f.push(Family::new("anywhere in memory", 16 * spans, format!("prologue, both handshake messages and messages both ways of up to {} bytes, the caller's memory beginning at each of 16 offsets from an aligned address; what lies around it is left alone", spans), move |n, ctx| {
        let (o, len) = ((n % 16) as usize, (n / 16) as usize);
        // Space for bytes at offset `o`, within a frame of other bytes.
        struct Placed(Vec<u8>, usize, usize);
        fn placed(b: &[u8], o: usize) -> Placed {
            let mut v = vec![0xa5u8; b.len() + 96];
            let at = v.as_ptr().align_offset(16) + 16 + o;
            v[at..at + b.len()].copy_from_slice(b);
            Placed(v, at, b.len())
        }
        impl Placed {
            fn b(&mut self) -> &mut [u8] {
                &mut self.0[self.1..self.1 + self.2]
            }
            fn around(&self) -> Res {
                if self.0[..self.1].iter().chain(&self.0[self.1 + self.2..]).any(|x| *x != 0xa5) {
                    return Err("a call changes memory outside the buffer it is given".into());
                }
                Ok(())
            }
        }
        let what = || format!("{} bytes at offset {}", len, o);
        ctx.note(what);
        let mut p = placed(&pattern(n, len), o);
        let (si, sr, ei, er) = (221, 222, 223, 224);
        let (mut i, mut r) = (session(true, p.b(), si, ei), session(false, p.b(), sr, er));
        let (mut mi, mut mr) = (rn::Initiator::new(p.b(), secret(ei)), rn::Responder::new(p.b(), secret(sr), secret(er)));
        let pa = pattern(n + 1, 32 + len);
        let want = mi.write_a(&pa[32..]);
        let mut a = placed(&pa, o);
        text(i.send_message(a.b()), || format!("send A: {}", what()))?;
        a.around()?;
        if a.b() != &want[..] {
            return Err(format!("the first message is not what Noise prescribes: {}", what()));
        }
        mr.read_a(&want).ok_or("harness: reference refuses A")?;
        text(r.recv_message(a.b()), || format!("receive A: {}", what()))?;
        a.around()?;
        let pb = pattern(n + 2, 96 + len);
        let (want, mut d) = mr.write_b(&pb[80..80 + len]);
        let mut b = placed(&pb, o);
        text(r.send_message(b.b()), || format!("send B: {}", what()))?;
        b.around()?;
        if b.b() != &want[..] {
            return Err(format!("the reply is not what Noise prescribes: {}", what()));
        }
        text(i.recv_message(b.b()), || format!("receive B: {}", what()))?;
        b.around()?;
        if b.b()[80..80 + len] != pb[80..80 + len] || i.get_handshake_hash() != Some(d.h) || r.get_handshake_hash() != Some(d.h) {
            return Err(format!("the ends do not agree: {}", what()));
        }
        ctx.visit(h(&[13, 11, o as u64, len as u64]));
        for k in 0..4u64 {
            let plain = pattern(n + 3 + k, len);
            let want = if k % 2 == 0 { d.c1.seal(&[], &plain) } else { d.c2.seal(&[], &plain) };
            let mut m = placed(&[&plain[..], &[1; MAC]].concat(), o);
            let (from, to) = if k % 2 == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
            text(from.send_message(m.b()), || format!("send a message: {}", what()))?;
            m.around()?;
            if m.b() != &want[..] {
                return Err(format!("a message is not what Noise prescribes: {}", what()));
            }
            // One altered first.
            let mut bad = placed(&want, o);
            let at = (n as usize * 7 + k as usize) % bad.2;
            bad.b()[at] ^= 0x40;
            if to.recv_message(bad.b()).is_ok() {
                return Err(format!("an altered message is accepted: {}", what()));
            }
            bad.around()?;
            text(to.recv_message(m.b()), || format!("a message is refused: {}", what()))?;
            m.around()?;
            if m.b()[..len] != plain[..] {
                return Err(format!("a message changes in transit: {}", what()));
            }
            ctx.transitions += 3;
        }
        Ok(())
    }));
    // As many rekeys as any counter of 16 bits counts, each noticed.
    let rekeys = tier.pick(70_000u64, 300_000);
    f.push(Family::new("very many rekeys", 2, format!("{} rekeys of one direction at both ends, each followed by a message byte for byte (and every 64th by one the other way)", rekeys), move |n, ctx| {
        let (mut a, mut b, mut d) = up_pair()?;
        let dir = n as usize;
        for k in 0..rekeys {
            if dir == 0 {
                a.rekey_local_cipherstate();
                b.rekey_local_cipherstate();
                d.c1.rekey();
                transport(&mut a, &mut b, &mut d.c1, 16 + (k % 8) as usize, k).map_err(|e| format!("after {} rekeys: {}", k + 1, e))?;
            } else {
                a.rekey_remote_cipherstate();
                b.rekey_remote_cipherstate();
                d.c2.rekey();
                transport(&mut b, &mut a, &mut d.c2, 16 + (k % 8) as usize, k).map_err(|e| format!("after {} rekeys: {}", k + 1, e))?;
            }
            if k % 64 == 0 {
                ctx.visit(h(&[13, 12, n, k]));
                if dir == 0 {
                    transport(&mut b, &mut a, &mut d.c2, 20, k)?;
                } else {
                    transport(&mut a, &mut b, &mut d.c1, 20, k)?;
                }
            }
            ctx.transitions += 3;
        }
        Ok(())
    }).hang(300));
    // A conversation longer than any counter of 16 or 20 (24) bits.
    let far = tier.pick((1u64 << 20) + 20, (1 << 24) + 20);
    f.push(Family::new("very long conversations", 2, format!("{} messages of 16 to 23 bytes one way, or the other", far), move |n, ctx| {
        let (mut a, mut b, mut d) = up_pair()?;
        for k in 0..far {
            if n == 0 {
                transport(&mut a, &mut b, &mut d.c1, 16 + (k % 8) as usize, k)?;
            } else {
                transport(&mut b, &mut a, &mut d.c2, 16 + (k % 8) as usize, k)?;
            }
            if k & 0xff == 0 {
                ctx.visit(h(&[13, 10, n, k]));
            }
            ctx.transitions += 1;
        }
        Ok(())
    }).hang(800));
    // A long conversation.
    let long = tier.pick(3000u64, 70_000);
    f.push(Family::new("long conversations", 8, format!("{} messages each way", long), move |n, ctx| {
        let (mut a, mut b, mut d) = up_pair()?;
        for k in 0..long {
            transport(&mut a, &mut b, &mut d.c1, 16 + (k % 8) as usize, k)?;
            if n % 2 == 0 || k % 3 == 0 {
                transport(&mut b, &mut a, &mut d.c2, 16 + (k % 5) as usize, k)?;
            }
            ctx.visit(h(&[13, 7, d.c1.n, d.c2.n]));
        }
        Ok(())
    }).hang(300));
    let mut a = assumptions();
    a.push("The reference (mc/src/refnoise.rs, refprims.rs) follows the Noise specification revision 34; its primitives are checked against RFC vectors at start-up.".into());
    Property { families: f, assumptions: a }
}

/// An established pair with the reference's transport keys (keys 3, no prologue).
fn up_pair() -> Result<(NoiseSession, NoiseSession, rn::Done), String> {
    struct Snap(NoiseSession, NoiseSession, rn::Cs, rn::Cs, [u8; 32]);
    thread_local! {
        static SNAP: std::cell::RefCell<Option<Snap>> = const { std::cell::RefCell::new(None) };
    }
    if can_fork() {
        let got = SNAP.with(|s| {
            s.borrow().as_ref().map(|s| {
                (copy_session(&s.0), copy_session(&s.1), rn::Done { h: s.4, c1: s.2.clone(), c2: s.3.clone() })
            })
        });
        if let Some(g) = got {
            return Ok(g);
        }
    }
    let (a, b, d) = conformance(32, 96, 3, b"", &mut Ctx::default())?;
    if can_fork() {
        SNAP.with(|s| {
            *s.borrow_mut() = Some(Snap(copy_session(&a), copy_session(&b), d.c1.clone(), d.c2.clone(), d.h))
        });
    }
    Ok((a, b, d))
}

// ---------------------------------------------------------------- C14

/// Runs a handshake in which the network replaces the messages.
fn disturbed(
    na: usize,
    nb: usize,
    fa: &dyn Fn(&[u8]) -> Vec<u8>,
    fb: &dyn Fn(&[u8]) -> Vec<u8>,
    what: &dyn Fn() -> String,
    ctx: &mut Ctx,
) -> Res {
    ctx.note(|| format!("{} (sizes {}, {})", what(), na, nb));
    let (a, after_a) = first_message(na)?;
    let mut i = after_a;
    let mut r = session(false, b"mc", 2, 4);
    let mut ca = fa(&a);
    let a_changed = ca != a;
    if r.recv_message(&mut ca).is_err() {
        ctx.count("responder refuses");
        return quiet(&i, "the initiator");
    }
    let mut b = pattern(5, nb);
    if r.send_message(&mut b).is_err() {
        return Err(format!("{}: the responder cannot answer", what()));
    }
    let mut cb = fb(&b);
    if !a_changed && cb == b {
        ctx.count("unchanged");
        return Ok(());
    }
    ctx.visit(h(&[14, a_changed as u64, cb.len() as u64, (cb == b) as u64]));
    if i.recv_message(&mut cb).is_ok() {
        return Err(format!("{} (sizes {}, {}): the initiator accepts the reply", what(), na, nb));
    }
    ctx.count("initiator refuses");
    quiet(&i, "the initiator").map_err(|e| format!("{} after {}", e, what()))?;
    // Offering it again, or the genuine reply to an altered first message, does not help.
    let mut again = fb(&b);
    if again != b && i.recv_message(&mut again).is_ok() {
        return Err(format!("{}: the initiator accepts the altered reply at the second attempt", what()));
    }
    if a_changed {
        let mut again = b.clone();
        if i.recv_message(&mut again).is_ok() {
            return Err(format!("{}: the initiator accepts a reply to another first message", what()));
        }
    }
    if !(again == b && !a_changed) {
        quiet(&i, "the initiator").map_err(|e| format!("{} after {}", e, what()))?;
    }
    Ok(())
}

/// The genuine first message of the given size and the initiator after sending it.
fn first_message(n: usize) -> Result<(Vec<u8>, NoiseSession), String> {
    let mut i = session(true, b"mc", 1, 3);
    let mut a = pattern(4, n);
    text(i.send_message(&mut a), || format!("send A of {} bytes", n))?;
    Ok((a, i))
}

/// Messages of other handshakes: (A, B) with other ephemerals, other statics, other prologue.
fn other_handshakes() -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    let combos: [(u64, u64, u64, u64, &[u8]); 7] = [
        (1, 2, 13, 14, b"mc"), // both ephemerals fresh
        (1, 2, 3, 14, b"mc"),  // same initiator ephemeral, fresh responder ephemeral
        (1, 2, 13, 4, b"mc"),  // fresh initiator ephemeral
        (1, 9, 3, 4, b"mc"),   // an impostor's static key
        (1, 9, 13, 14, b"mc"),
        (8, 2, 3, 4, b"mc"), // same handshake, other initiator static (does not matter in NX)
        (1, 2, 3, 4, b"m"), // other prologue
    ];
    for (si, sr, ei, er, p) in combos {
        let mut i = session(true, p, si, ei);
        let mut r = session(false, p, sr, er);
        let mut a = pattern(77, 128);
        let _ = i.send_message(&mut a);
        let mut x = a.clone();
        let _ = r.recv_message(&mut x);
        let mut b = pattern(78, 128);
        let _ = r.send_message(&mut b);
        out.push((a, b));
    }
    out
}

fn same(b: &[u8]) -> Vec<u8> {
    b.to_vec()
}

pub fn c14(tier: Tier) -> Property {
    let mut f = vec![];
    let sizes_a: Vec<usize> = tier.pick(vec![32, 33, 48, 100], vec![32, 33, 47, 48, 49, 64, 100, 1024]);
    let sizes_b: Vec<usize> = tier.pick(vec![96, 97, 128], vec![96, 97, 112, 128, 200, 1024]);
    for na in sizes_a.clone() {
        f.push(Family::new(format!("every bit of a first message of {}", na), na as u64 * 8, "all single-bit changes", move |n, ctx| {
            disturbed(na, 96, &|a| flip(a, n as usize), &same, &|| format!("bit {} of the first message flipped", n), ctx)
        }));
    }
    for nb in sizes_b.clone() {
        f.push(Family::new(format!("every bit of a reply of {}", nb), nb as u64 * 8, "all single-bit changes", move |n, ctx| {
            disturbed(32, nb, &same, &|b| flip(b, n as usize), &|| format!("bit {} of the reply flipped", n), ctx)
        }));
    }
    f.push(Family::new("every byte value of the first message", 48 * 255, "48-byte first message, every byte replaced by every other value", |n, ctx| {
        let (p, v) = ((n / 255) as usize, (n % 255 + 1) as u8);
        disturbed(48, 96, &|a| xor(a, p, v), &same, &|| format!("byte {} of the first message xor {}", p, v), ctx)
    }));
    f.push(Family::new("every byte value of the reply", 104 * 255, "104-byte reply, every byte replaced by every other value", |n, ctx| {
        let (p, v) = ((n / 255) as usize, (n % 255 + 1) as u8);
        disturbed(32, 104, &same, &|b| xor(b, p, v), &|| format!("byte {} of the reply xor {}", p, v), ctx)
    }));
    // The longest messages.
    let nbits = tier.pick(1u64, 8);
    for which in 0..2usize {
        let name = ["longest first message", "longest reply"][which];
        f.push(Family::new(format!("every byte of the {}", name), 65535 * nbits, format!("65535 bytes, {} of every byte", ["one bit", "every bit"][(nbits == 8) as usize]), move |n, ctx| {
            let (p, k) = ((n / nbits) as usize, n % nbits);
            let bit = p * 8 + ((p as u64 + k) % 8) as usize;
            let what = || format!("bit {} of the {} (65535 bytes) flipped", bit, name);
            if which == 0 {
                disturbed(65535, 96, &|a| flip(a, bit), &same, &what, ctx)
            } else {
                disturbed(32, 65535, &same, &|b| flip(b, bit), &what, ctx)
            }
        }));
        let step = tier.pick(16u64, 1);
        f.push(Family::new(format!("truncations of the {}", name), 65535 / step, format!("65535 bytes cut to every {}. length", step), move |n, ctx| {
            let to = (n * step + n % step) as usize;
            let what = || format!("the {} (65535 bytes) cut to {}", name, to);
            if which == 0 {
                disturbed(65535, 96, &|a| a[..to].to_vec(), &same, &what, ctx)
            } else {
                disturbed(32, 65535, &same, &|b| b[..to].to_vec(), &what, ctx)
            }
        }));
    }
    // Two-bit changes of the reply.
    let bits = 96 * 8u64;
    let stride = tier.pick(5u64, 1);
    f.push(Family::new("two bits of the reply", bits * bits / stride, format!("96-byte reply, pairs of bits (every {}. pair by index)", stride), move |n, ctx| {
        let n = n * stride;
        let (x, y) = ((n / bits) as usize, (n % bits) as usize);
        if x >= y {
            return Ok(());
        }
        disturbed(32, 96, &same, &|b| flip(&flip(b, x), y), &|| format!("bits {} and {} of the reply flipped", x, y), ctx)
    }));
    // One change in each message.
    f.push(Family::new("one bit of each message", 32 * 8 * 96, "32-byte first message (every bit), 96-byte reply (one bit per byte)", |n, ctx| {
        let (x, y) = ((n % 256) as usize, (n / 256) as usize * 8 + (n % 8) as usize);
        disturbed(32, 96, &|a| flip(a, x), &|b| flip(b, y), &|| format!("bit {} of the first message and bit {} of the reply flipped", x, y), ctx)
    }));
    // Lengths.
    for (na, nb) in [(32usize, 96usize), (100, 200), (1024, 1024)] {
        f.push(Family::new(format!("truncations {}/{}", na, nb), (na + nb) as u64, "every truncation of either message", move |n, ctx| {
            let n = n as usize;
            if n < na {
                disturbed(na, nb, &|a| a[..n].to_vec(), &same, &|| format!("first message cut to {}", n), ctx)
            } else {
                let n = n - na;
                disturbed(na, nb, &same, &|b| b[..n].to_vec(), &|| format!("reply cut to {}", n), ctx)
            }
        }));
        f.push(Family::new(format!("front cuts {}/{}", na, nb), (na + nb) as u64, "every removal of leading bytes of either message", move |n, ctx| {
            let n = n as usize;
            if n < na {
                disturbed(na, nb, &|a| a[n..].to_vec(), &same, &|| format!("{} leading bytes of the first message removed", n), ctx)
            } else {
                let n = n - na;
                disturbed(na, nb, &same, &|b| b[n..].to_vec(), &|| format!("{} leading bytes of the reply removed", n), ctx)
            }
        }));
        f.push(Family::new(format!("byte removals and insertions {}/{}", na, nb), 2 * (na + nb) as u64 * 2, "one byte removed or inserted (0 or 0xff) at every position of either message", move |n, ctx| {
            let mut r = Radix(n);
            let kind = r.take(4);
            let pos = r.0 as usize;
            let f = move |m: &[u8], pos: usize| -> Vec<u8> {
                let mut v = m.to_vec();
                match kind {
                    0 => {
                        v.remove(pos);
                    }
                    1 => v.insert(pos, 0),
                    2 => v.insert(pos, 0xff),
                    _ => v[pos] = !v[pos],
                }
                v
            };
            if pos < na {
                disturbed(na, nb, &|a| f(a, pos), &same, &|| format!("edit {} at {} of the first message", kind, pos), ctx)
            } else if pos < na + nb {
                let pos = pos - na;
                disturbed(na, nb, &same, &|b| f(b, pos), &|| format!("edit {} at {} of the reply", kind, pos), ctx)
            } else {
                Ok(())
            }
        }));
    }
    let max_ext = tier.pick(600usize, 65535);
    f.push(Family::new("extensions", max_ext as u64 * 4, "1.. bytes appended to either message, zero or not", move |n, ctx| {
        let (k, which) = ((n / 4) as usize + 1, n % 4);
        let fill = if which & 1 == 0 { 0u8 } else { 0xa5 };
        let ext = |m: &[u8]| {
            let mut v = m.to_vec();
            v.extend(std::iter::repeat(fill).take(k));
            v
        };
        if which < 2 {
            disturbed(40, 96, &ext, &same, &|| format!("first message extended by {}", k), ctx)
        } else {
            disturbed(40, 96, &same, &ext, &|| format!("reply extended by {}", k), ctx)
        }
    }));
    // Substitution and splicing.
    f.push(Family::new("substitution", 7 * 7 * 3, "either or both messages replaced by those of seven other handshakes (fresh ephemerals, impostor, other prologue)", |n, ctx| {
        let o = other_handshakes();
        let mut r = Radix(n);
        let (x, y, w) = (r.take(7), r.take(7), r.take(3));
        let fa = |a: &[u8]| if w != 1 { o[x].0.clone() } else { a.to_vec() };
        let fb = |b: &[u8]| if w != 0 { o[y].1.clone() } else { b.to_vec() };
        disturbed(128, 128, &fa, &fb, &|| format!("messages of handshakes {} / {} (mode {})", x, y, w), ctx)
    }));
    f.push(Family::new("splicing", 7 * 15, "every combination of the fields (e, static, payload and its MAC) of a reply taken from another handshake's reply", |n, ctx| {
        let o = other_handshakes();
        let mut r = Radix(n);
        let (x, mask) = (r.take(7), r.take(15) + 1);
        let fb = |b: &[u8]| {
            let mut v = b.to_vec();
            let z = &o[x].1;
            for (k, (s, e)) in [(0, 32), (32, 80), (80, 112), (112, 128)].into_iter().enumerate() {
                if mask & (1 << k) != 0 {
                    v[s..e].copy_from_slice(&z[s..e]);
                }
            }
            v
        };
        disturbed(128, 128, &same, &fb, &|| format!("reply spliced with handshake {} (fields {:04b})", x, mask), ctx)
    }));
    f.push(Family::new("unencrypted replies", 3 * 6 * 7, "replies with the genuine, another's or no ephemeral key, the static key (genuine, in clear, with and without room for its MAC, an impostor's in clear, none) and the payload (genuine, in clear, with and without room for a MAC, a frame, none) in every combination", |n, ctx| {
        let mut r = Radix(n);
        let (x, y, z) = (r.take(3), r.take(6), r.take(7));
        let fb = move |b: &[u8]| {
            let genuine = rp::x25519_base(&secret(2)).to_vec();
            let impostor = rp::x25519_base(&secret(9)).to_vec();
            let mac = vec![0u8; MAC];
            let mut plain = pattern(5, 128)[80..112].to_vec();
            let e = match x {
                0 => b[..32].to_vec(),
                1 => rp::x25519_base(&secret(44)).to_vec(),
                _ => vec![],
            };
            let s = match y {
                0 => b[32..80].to_vec(),
                1 => [genuine, mac.clone()].concat(),
                2 => genuine,
                3 => [impostor, mac.clone()].concat(),
                4 => impostor,
                _ => vec![],
            };
            let p = match z {
                0 => b[80..].to_vec(),
                1 => [plain, mac].concat(),
                2 => plain,
                3 => {
                    plain.splice(0..6, [0, 0, 1, 26, 0, 0]);
                    [plain, mac].concat()
                }
                4 => {
                    plain.splice(0..6, [0, 0, 1, 26, 0, 0]);
                    plain
                }
                5 => mac,
                _ => vec![],
            };
            [e, s, p].concat()
        };
        disturbed(128, 128, &same, &fb, &|| format!("a reply with ephemeral key {}, static key {}, payload {}", x, y, z), ctx)
    }));
    f.push(Family::new("field reordering", 6 + 64, "fields of the reply in every other order; the first message in place of the reply and vice versa; constant replies", |n, ctx| {
        if n < 6 {
            let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
            let o = orders[n as usize];
            let fb = |b: &[u8]| {
                let parts = [&b[..32], &b[32..80], &b[80..]];
                let mut v = vec![];
                for k in o {
                    v.extend_from_slice(parts[k]);
                }
                v
            };
            return disturbed(128, 128, &same, &fb, &|| format!("reply with fields in order {:?}", o), ctx);
        }
        let k = n - 6;
        match k {
            0 => {
                let (a, _) = first_message(128)?;
                disturbed(128, 128, &same, &move |_| a.clone(), &|| "the first message reflected as reply".into(), ctx)
            }
            1 => disturbed(128, 128, &|_| other_handshakes()[0].1.clone(), &same, &|| "a reply in place of the first message".into(), ctx),
            k => {
                let v = (k * 4) as u8;
                disturbed(128, 128, &same, &move |b| vec![v; b.len()], &|| format!("a constant reply {}", v), ctx)
            }
        }
    }));
    // Rearrangements of the fields, of pairs of neighbouring fields and of the whole.
    for (na, nb) in [(32usize, 96usize), (100, 128), (48, 112)] {
        let mut pieces: Vec<(bool, usize, usize, &str)> = vec![
            (true, 0, 32, "ephemeral key of the first message"),
            (true, 0, na, "first message"),
            (false, 0, 32, "ephemeral key of the reply"),
            (false, 32, 64, "sealed static key"),
            (false, 64, 80, "MAC of the static key"),
            (false, 32, 80, "static key with its MAC"),
            (false, nb - 16, nb, "MAC of the reply"),
            (false, 80, nb, "payload with its MAC"),
            (false, 64, nb, "both MACs and the payload"),
            (false, 0, nb, "reply"),
        ];
        if na > 32 {
            pieces.push((true, 32, na, "payload of the first message"));
        }
        if nb > 96 {
            pieces.push((false, 80, nb - 16, "payload of the reply"));
        }
        for (first, s, e, name) in pieces {
            let count = reshapes(&vec![0x5a; e - s].iter().enumerate().map(|(i, b)| b ^ (i as u8)).collect::<Vec<_>>()).len() as u64 + 40;
            let chunk = 16u64;
            f.push(Family::new(
                format!("rearranged {}, {}/{}", name, na, nb),
                count.div_ceil(chunk),
                "rotations, swaps, reversals in groups, uniform changes, sums kept, repetitions",
                move |n, ctx| {
                    let (a, b) = {
                        let (a, _) = first_message(na)?;
                        let mut r = session(false, b"mc", 2, 4);
                        let mut x = a.clone();
                        text(r.recv_message(&mut x), || "the genuine first message".into())?;
                        let mut b = pattern(5, nb);
                        text(r.send_message(&mut b), || "the reply".into())?;
                        (a, b)
                    };
                    let m = if first { &a } else { &b };
                    for (what, piece) in reshapes(&m[s..e]).into_iter().skip((n * chunk) as usize).take(chunk as usize) {
                        let alter = |m: &[u8]| with_piece(m, s, e, &piece);
                        let what = || format!("{} {}", name, what);
                        if first {
                            disturbed(na, nb, &alter, &same, &what, ctx)?;
                        } else {
                            disturbed(na, nb, &same, &alter, &what, ctx)?;
                        }
                    }
                    Ok(())
                },
            ));
        }
    }
    Property { families: f, assumptions: assumptions() }
}

/// Rearrangements and uniform changes of a piece of a message: what a comparison by sums,
/// in another order, by parts or of a digest of it would overlook.
fn reshapes(seg: &[u8]) -> Vec<(String, Vec<u8>)> {
    let n = seg.len();
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    if n == 0 {
        return out;
    }
    for k in 1..n.min(200) {
        let mut v = seg.to_vec();
        v.rotate_left(k);
        out.push((format!("rotated by {}", k), v));
    }
    out.push(("reversed".into(), seg.iter().rev().copied().collect()));
    let mut sorted = seg.to_vec();
    sorted.sort();
    out.push(("sorted".into(), sorted));
    for w in [2usize, 4, 8, 16] {
        if n < w {
            continue;
        }
        let whole = n / w * w;
        let mut v = seg.to_vec();
        v[..whole].chunks_mut(w).for_each(|c| c.reverse());
        out.push((format!("reversed in groups of {}", w), v));
        let mut v: Vec<u8> = seg[..whole].chunks(w).rev().flatten().copied().collect();
        v.extend_from_slice(&seg[whole..]);
        out.push((format!("groups of {} in reverse order", w), v));
        for g in 0..n / w {
            let mut v = seg.to_vec();
            v[g * w..(g + 1) * w].reverse();
            out.push((format!("group {} of {} bytes reversed", g, w), v));
            let mut v = seg.to_vec();
            v[g * w..(g + 1) * w].fill(0);
            out.push((format!("group {} of {} bytes cleared", g, w), v));
            let mut v = seg.to_vec();
            v[g * w..(g + 1) * w].iter_mut().for_each(|b| *b = !*b);
            out.push((format!("group {} of {} bytes complemented", g, w), v));
            for o in g + 1..n / w {
                let mut v = seg.to_vec();
                for i in 0..w {
                    v.swap(g * w + i, o * w + i);
                }
                out.push((format!("groups {} and {} of {} bytes swapped", g, o, w), v));
            }
        }
    }
    let m = n.min(130);
    for i in 0..m {
        for j in i + 1..m {
            let mut v = seg.to_vec();
            v.swap(i, j);
            out.push((format!("bytes {} and {} swapped", i, j), v));
            let mut v = seg.to_vec();
            v[i] ^= 0x41;
            v[j] ^= 0x41;
            out.push((format!("bytes {} and {} xor 65", i, j), v));
            let mut v = seg.to_vec();
            v[i] = v[i].wrapping_add(1);
            v[j] = v[j].wrapping_sub(1);
            out.push((format!("bytes {} and {} plus and minus one", i, j), v));
        }
    }
    for c in 1..=255u8 {
        out.push((format!("every byte xor {}", c), seg.iter().map(|b| b ^ c).collect()));
        out.push((format!("every byte plus {}", c), seg.iter().map(|b| b.wrapping_add(c)).collect()));
        out.push((format!("every byte {}", c), vec![c; n]));
    }
    for c in 0..8u32 {
        out.push((format!("every byte's bits rotated by {}", c), seg.iter().map(|b| b.rotate_left(c)).collect()));
    }
    out.push(("every byte's bits reversed".into(), seg.iter().map(|b| b.reverse_bits()).collect()));
    out.push(("all zero".into(), vec![0; n]));
    // As one number, little- and big-endian.
    for add in [1i32, -1] {
        for le in [true, false] {
            let mut v = seg.to_vec();
            let mut carry = add;
            for i in 0..n {
                let at = if le { i } else { n - 1 - i };
                let x = v[at] as i32 + carry;
                v[at] = x.rem_euclid(256) as u8;
                carry = x.div_euclid(256);
            }
            out.push((format!("plus {} as a {}-endian number", add, ["big", "little"][le as usize]), v));
        }
    }
    // Every piece repeated over the whole.
    for w in [1usize, 2, 4, 8] {
        if n >= 2 * w {
            let v = (0..n).map(|i| seg[i % w]).collect();
            out.push((format!("its first {} bytes repeated", w), v));
            let v = (0..n).map(|i| seg[n - w + i % w]).collect();
            out.push((format!("its last {} bytes repeated", w), v));
        }
    }
    out.retain(|(_, v)| v != seg);
    out
}

/// `whole` with one piece replaced.
fn with_piece(whole: &[u8], s: usize, e: usize, piece: &[u8]) -> Vec<u8> {
    let mut v = whole.to_vec();
    v[s..e].copy_from_slice(piece);
    v
}

fn flip(m: &[u8], bit: usize) -> Vec<u8> {
    let mut v = m.to_vec();
    v[bit / 8] ^= 1 << (bit % 8);
    v
}
fn xor(m: &[u8], at: usize, x: u8) -> Vec<u8> {
    let mut v = m.to_vec();
    v[at] ^= x;
    v
}

// ---------------------------------------------------------------- C15

pub fn c15(tier: Tier) -> Property {
    let mut f = vec![];
    for (roles, name) in [
        ([true, false], "initiator and responder"),
        ([true, true], "two initiators"),
        ([false, false], "two responders"),
    ] {
        f.push(sequences(
            format!("call sequences, {}", name),
            Setup { roles, watch: Watch::default(), up: false },
            tier.pick(7, 8),
            20,
            Box::new(|d: &Duo| exchange_alphabet(d, true)),
        ));
        f.push(sequences(
            format!("call sequences with wrong sizes, altered and foreign messages, {}", name),
            Setup { roles, watch: Watch::default(), up: false },
            tier.pick(4, 5),
            64,
            Box::new(|d: &Duo| {
                let mut v = exchange_alphabet(d, true);
                for x in 0..2u8 {
                    for n in [0u32, 16, 31, 32, 48, 95, 96, 65536] {
                        v.push(Act::Send(x, n));
                    }
                    for i in 0..d.log.len() {
                        v.push(Act::Recv(x, Src::Log(i as u8), Alt::FlipLast));
                    }
                    v.push(Act::Recv(x, Src::Foreign(0), Alt::Exact));
                    v.push(Act::Recv(x, Src::Foreign(1), Alt::Exact));
                    v.push(Act::Recv(x, Src::Noise(31), Alt::Exact));
                    v.push(Act::Recv(x, Src::Zeros(48), Alt::Exact));
                    v.push(Act::Recv(x, Src::Zeros(128), Alt::Exact));
                }
                v
            }),
        ));
    }
    // One session alone, longer: only its own messages and garbage.
    for (initiator, name) in [(true, "initiator"), (false, "responder")] {
        f.push(sequences(
            format!("one {} alone", name),
            Setup { roles: [initiator, initiator], watch: Watch::default(), up: false },
            tier.pick(9, 11),
            8,
            Box::new(|d: &Duo| {
                let mut v = vec![Act::Send(0, HS_LEN), Act::Recv(0, Src::Noise(HS_LEN), Alt::Exact), Act::Recv(0, Src::Foreign(0), Alt::Exact)];
                if let Some(i) = d.log.len().checked_sub(1) {
                    v.push(Act::Recv(0, Src::Log(i as u8), Alt::Exact));
                }
                v
            }),
        ));
    }
    // Out-of-turn calls with buffers of every size.
    f.push(Family::new("out-of-turn sizes", 4 * 2100, "every buffer size 0..2100 in each out-of-turn call, then the genuine handshake", |n, ctx| {
        let mut r = Radix(n);
        let (case, size) = (r.take(4), r.take(2100));
        let mut i = session(true, b"", 1, 3);
        let mut s = session(false, b"", 2, 4);
        let bad = |r: bool| -> Res {
            if r {
                Err(format!("out-of-turn call {} with {} bytes succeeds", case, size))
            } else {
                Ok(())
            }
        };
        let mut g = pattern(6, size);
        if case == 0 {
            bad(i.recv_message(&mut g).is_ok())?;
        }
        if case == 1 {
            bad(s.send_message(&mut g).is_ok())?;
        }
        let mut a = pattern(1, 64);
        text(i.send_message(&mut a), || format!("send A after out-of-turn call {} ({} bytes)", case, size))?;
        if case == 2 {
            bad(i.send_message(&mut g).is_ok())?;
        }
        text(s.recv_message(&mut a), || format!("recv A after out-of-turn call {} ({} bytes)", case, size))?;
        if case == 3 {
            bad(s.recv_message(&mut g).is_ok())?;
        }
        if i.is_transport() || s.is_transport() {
            return Err("completion before the reply".into());
        }
        let mut b = pattern(1, 128);
        text(s.send_message(&mut b), || format!("send B after out-of-turn call {} ({} bytes)", case, size))?;
        if i.is_transport() {
            return Err("completion before the reply".into());
        }
        text(i.recv_message(&mut b), || format!("recv B after out-of-turn call {} ({} bytes)", case, size))?;
        if !i.is_transport() || !s.is_transport() {
            return Err("no completion".into());
        }
        ctx.visit(h(&[15, case as u64, size as u64]));
        Ok(())
    }));
    // Any number of refused calls, then the genuine handshake.
    let most = tier.pick(10_000_000usize, 4_400_000_000);
    f.push(
        Family::new("refusals in a row", 4 * 6, format!("1 to {} out-of-turn calls, wrong sizes or garbage in a row at each stage, and the session still completes with its genuine peer", most), move |n, ctx| {
            let mut r = Radix(n);
            let (stage, what) = (r.take(4), r.take(6));
            // stage 0: initiator before its message; 1: initiator awaiting the reply;
            // 2: responder awaiting the first message; 3: responder before its reply.
            let size = match what {
                0 => 128usize,
                1 => 0,
                2 => 31,
                3 => 70_000,
                4 => 64,
                _ => 96,
            };
            // The call that is out of turn at the stage, or in turn with a size that no message has.
            let turn_is_send = stage % 3 == 0;
            let impossible = size < 32 || size > 65535 || (stage % 3 != 0 && stage == 1 && size < 96) || (stage == 3 && size < 96);
            let mut i = session(true, b"mc", 1, 3);
            let mut s = session(false, b"mc", 2, 4);
            let mut a = pattern(1, 64);
            let mut b = pattern(1, 128);
            let mut done = 0usize;
            let bother = |x: &mut NoiseSession, ctx: &mut Ctx, done: &mut usize| -> Res {
                let mut g = pattern(9, size);
                for k in 0..most {
                    // Wrong direction; every other time the right one with an impossible size.
                    let send = if impossible && k % 2 == 1 { turn_is_send } else { !turn_is_send };
                    let ok = if send { x.send_message(&mut g).is_ok() } else { x.recv_message(&mut g).is_ok() };
                    if ok {
                        return Err(format!("stage {}, {} bytes: call {} that has to be refused succeeds", stage, size, k + 1));
                    }
                    *done += 1;
                }
                if x.is_transport() {
                    return Err(format!("stage {}: completion by refused calls", stage));
                }
                ctx.transitions += most as u64;
                ctx.visit(h(&[15, 50, stage as u64, what as u64]));
                Ok(())
            };
            if stage == 0 {
                bother(&mut i, ctx, &mut done)?;
            }
            if stage == 2 {
                bother(&mut s, ctx, &mut done)?;
            }
            let say = |x: &str| format!("{} after {} refused calls of {} bytes at stage {}", x, most, size, stage);
            text(i.send_message(&mut a), || say("send A"))?;
            if stage == 1 {
                bother(&mut i, ctx, &mut done)?;
            }
            text(s.recv_message(&mut a), || say("recv A"))?;
            if stage == 3 {
                bother(&mut s, ctx, &mut done)?;
            }
            text(s.send_message(&mut b), || say("send B"))?;
            text(i.recv_message(&mut b), || say("recv B"))?;
            if !i.is_transport() || !s.is_transport() || done != most {
                return Err(say("no completion"));
            }
            let mut m = pattern(2, 40);
            text(s.send_message(&mut m), || say("first transport message"))?;
            text(i.recv_message(&mut m), || say("first transport message"))?;
            if m[..24] != pattern(2, 40)[..24] {
                return Err(say("a changed message"));
            }
            Ok(())
        })
        .hang(tier.pick(600, 7200)),
    );
    Property { families: f, assumptions: assumptions() }
}

// ---------------------------------------------------------------- C16

const UP: Setup = Setup { roles: [true, false], watch: Watch { facts: false, harmless: false }, up: true };

fn traffic_alphabet(d: &Duo, alts: &[Alt]) -> Vec<Act> {
    let mut v = vec![Act::Send(0, 40), Act::Send(1, 24)];
    for x in 0..2u8 {
        // The handshake messages (0 and 1) are probed elsewhere.
        for i in 2..d.log.len() {
            for a in alts {
                v.push(Act::Recv(x, Src::Log(i as u8), *a));
            }
        }
    }
    v
}

const ALTS: [Alt; 15] = [
    Alt::FlipFirst,
    Alt::FlipMid,
    Alt::FlipLast,
    Alt::Cut1,
    Alt::CutFront,
    Alt::CutTo(0),
    Alt::CutTo(15),
    Alt::CutTo(16),
    Alt::CutTo(17),
    Alt::Ext1,
    Alt::ExtFront,
    Alt::ExtBy(16),
    Alt::Rotate,
    Alt::ZeroMac,
    Alt::MacOf(2),
];

/// Everything that must be refused, at either end, in this state.
fn probes(d: &Duo) -> Vec<Act> {
    let mut v = vec![];
    for x in 0..2u8 {
        for i in 0..d.log.len() {
            let next = d.next_for(x as usize) == Some(i);
            if !next {
                v.push(Act::Recv(x, Src::Log(i as u8), Alt::Exact));
            }
            for a in ALTS {
                v.push(Act::Recv(x, Src::Log(i as u8), a));
            }
            for m in 2..d.log.len() {
                if m != i && m != 2 {
                    v.push(Act::Recv(x, Src::Log(i as u8), Alt::MacOf(m as u8)));
                }
            }
        }
        for i in 0..6 {
            v.push(Act::Recv(x, Src::Foreign(i), Alt::Exact));
        }
        for n in [0, 1, 15, 16, 17, 40, 65535, 65536] {
            v.push(Act::Recv(x, Src::Noise(n), Alt::Exact));
            v.push(Act::Recv(x, Src::Zeros(n), Alt::Exact));
        }
    }
    v
}

/// Messages of ordinary size and empty ones.
fn progress(_: &Duo) -> [Act; 6] {
    [Act::Send(0, 40), Act::Send(1, 40), Act::Next(0), Act::Next(1), Act::Send(0, 16), Act::Send(1, 16)]
}

/// Two real sessions after a handshake.
fn established() -> Result<[NoiseSession; 2], String> {
    let mut s = [session(true, b"mc", 1, 3), session(false, b"mc", 2, 4)];
    let mut b = pattern(1, 128);
    text(s[0].send_message(&mut b), || "send A".into())?;
    text(s[1].recv_message(&mut b), || "recv A".into())?;
    text(s[1].send_message(&mut b), || "send B".into())?;
    text(s[0].recv_message(&mut b), || "recv B".into())?;
    Ok(s)
}

fn rekey_dir(s: &mut NoiseSession, dir: usize) {
    if dir == 0 {
        s.rekey_local_cipherstate()
    } else {
        s.rekey_remote_cipherstate()
    }
}

/// A long conversation; before each genuine message every kind of stale, early, reflected or
/// altered message is offered, and both ends rekey every so many messages (0: never).
fn long_run(mode: usize, rekey_every: usize, total: usize, ctx: &mut Ctx) -> Res {
    let mut s = established()?;
    // Wires by direction; the sender is up to two messages ahead.
    let mut wires: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let mut taken = [0usize; 2];
    let plain = |dir: usize, n: usize| pattern((n * 2 + dir) as u64, if n % 97 == 0 { 0 } else { 1 + n % 23 });
    // The first number under the current key.
    let mut since = [0usize; 2];
    let sealed = |s: &mut [NoiseSession; 2], wires: &mut [Vec<Vec<u8>>; 2], dir: usize| -> Res {
        let n = wires[dir].len();
        let mut b = plain(dir, n);
        b.resize(b.len() + MAC, 0);
        text(s[dir].send_message(&mut b), || format!("message {} of direction {} cannot be sent", n, dir))?;
        wires[dir].push(b);
        Ok(())
    };
    for k in 0..total {
        let dir = match mode {
            0 => 0,
            1 => 1,
            2 => k % 2,
            _ => k / 7 % 2,
        };
        let to = 1 - dir;
        let n = taken[dir];
        let ahead = if rekey_every == 0 { 2 } else { 0 };
        while wires[dir].len() <= n + ahead {
            sealed(&mut s, &mut wires, dir)?;
        }
        let count = s[to].get_message_count();
        let refuse = |s: &mut [NoiseSession; 2], w: &[u8], what: &str, num: usize| -> Res {
            let mut b = w.to_vec();
            if s[to].recv_message(&mut b).is_ok() {
                return Err(format!("direction {}, awaiting message {}: {} {} is accepted", dir, n, what, num));
            }
            if s[to].get_message_count() != count {
                return Err(format!("direction {}, awaiting message {}: refusing {} {} changes the message count", dir, n, what, num));
            }
            if !s[to].is_transport() {
                return Err(format!("direction {}, awaiting message {}: refusing {} {} ends the session", dir, n, what, num));
            }
            Ok(())
        };
        for back in [1usize, 2, 127, 128, 255, 256, 257, 1000, 1024, 32768, 65535, 65536, 65537] {
            if n >= back {
                refuse(&mut s, &wires[dir][n - back], "message", n - back)?;
            }
        }
        if n > 0 {
            refuse(&mut s, &wires[dir][0], "message", 0)?;
            refuse(&mut s, &wires[dir][n / 2], "message", n / 2)?;
        }
        for i in 1..=ahead {
            refuse(&mut s, &wires[dir][n + i], "message", n + i)?;
        }
        if let Some(w) = wires[to].get(n).or_else(|| wires[to].last()) {
            refuse(&mut s, &w.clone(), "a message of the other direction, number", n)?;
        }
        let mut x = wires[dir][n].clone();
        let at = k % x.len();
        x[at] ^= 1 << (k % 8);
        refuse(&mut s, &x, "the altered message", n)?;
        let mut x = wires[dir][n].clone();
        text(s[to].recv_message(&mut x), || format!("direction {}: genuine message {} after refusals", dir, n))?;
        let p = plain(dir, n);
        if x[..p.len()] != p[..] {
            return Err(format!("direction {}: message {} arrives changed", dir, n));
        }
        taken[dir] += 1;
        ctx.visit(h(&[16, 77, mode as u64, rekey_every as u64, n.min(3000) as u64]));
        if rekey_every > 0 && (taken[dir] - since[dir]) % rekey_every == 0 {
            since[dir] = taken[dir];
            // At times one more message is exchanged first, so that the distances vary.
            if taken[dir] % 3 == 0 {
                sealed(&mut s, &mut wires, dir)?;
                let n = taken[dir];
                let mut x = wires[dir][n].clone();
                text(s[to].recv_message(&mut x), || format!("direction {}: message {}", dir, n))?;
                taken[dir] += 1;
            }
            rekey_dir(&mut s[dir], dir);
            // Until the other end follows, nothing passes.
            if taken[dir] % 2 == 0 && can_fork() {
                let mut fork = [copy_session(&s[0]), copy_session(&s[1])];
                let mut b = pattern(5, 40);
                text(fork[dir].send_message(&mut b), || "sending after a rekey".into())?;
                if fork[to].recv_message(&mut b).is_ok() {
                    return Err(format!("direction {}: after {} messages only the sender rekeys and the next message is accepted", dir, taken[dir]));
                }
            }
            rekey_dir(&mut s[to], dir);
        }
    }
    Ok(())
}

pub fn c16(tier: Tier) -> Property {
    let mut f = vec![];
    f.push(sequences(
        "send/deliver sequences",
        UP,
        tier.pick(9, 10),
        40,
        Box::new(|d: &Duo| traffic_alphabet(d, &[Alt::Exact])),
    ));
    f.push(sequences(
        "send/deliver sequences with altered deliveries",
        UP,
        tier.pick(7, 8),
        80,
        Box::new(|d: &Duo| traffic_alphabet(d, &[Alt::Exact, Alt::FlipLast, Alt::FlipFirst, Alt::Cut1])),
    ));
    f.push(sequences(
        "send/deliver sequences with messages of 0, 1 and 24 bytes",
        UP,
        tier.pick(6, 7),
        60,
        Box::new(|d: &Duo| {
            let mut v = traffic_alphabet(d, &[Alt::Exact]);
            for x in 0..2 {
                v.push(Act::Send(x, 16));
                v.push(Act::Send(x, 17));
            }
            v
        }),
    ));
    // At every reachable progress state, every possible refusal.
    // Sessions that own memory are forked by repeating their history.
    let depth = tier.pick(if can_fork() { 5usize } else { 4 }, 6);
    let p = 6u64.pow(depth as u32);
    f.push(Family::new(
        "probes at every history",
        p,
        format!("every history of {} sends/deliveries; then every recorded, altered, spliced and foreign message offered to both ends", depth),
        move |n, ctx| {
            let mut r = Radix(n);
            let mut d = Duo::new(UP)?;
            for _ in 0..depth {
                let a = progress(&d)[r.take(6)];
                d.apply(a, ctx)?;
            }
            for a in probes(&d) {
                let mut e = d.fork()?;
                e.apply(a, ctx)?;
            }
            Ok(())
        },
    ));
    // Every bit of a message of each small size.
    let sizes: Vec<u32> = (16..tier.pick(64, 160)).collect();
    let k = sizes.len() as u64;
    f.push(Family::new("every bit", k * 4, "every single-bit change, truncation and extension by up to 20 of messages of each small size, either direction, first or third message", move |n, ctx| {
        let mut r = Radix(n);
        let len = sizes[r.take(k as usize)];
        let x = r.take(2) as u8;
        let later = r.take(2);
        let mut d = Duo::new(UP)?;
        for _ in 0..later * 2 {
            d.apply(Act::Send(x, 33), ctx)?;
            d.apply(Act::Next(1 - x), ctx)?;
        }
        let id = d.log.len() as u8;
        d.apply(Act::Send(x, len), ctx)?;
        for bit in 0..len * 8 {
            let mut e = d.fork()?;
            e.apply(Act::Recv(1 - x, Src::Log(id), Alt::Flip(bit)), ctx)?;
        }
        for c in 0..len {
            let mut e = d.fork()?;
            e.apply(Act::Recv(1 - x, Src::Log(id), Alt::CutTo(c)), ctx)?;
        }
        for c in 1..20 {
            let mut e = d.fork()?;
            e.apply(Act::Recv(1 - x, Src::Log(id), Alt::ExtBy(c)), ctx)?;
        }
        d.apply(Act::Recv(1 - x, Src::Log(id), Alt::Exact), ctx)?;
        Ok(())
    }));
    // Rearrangements of the MAC, the ciphertext and the whole.
    let lens: Vec<usize> = tier.pick(vec![16, 17, 24, 32, 33, 48, 80], (16..=144).collect());
    let k = lens.len() as u64;
    f.push(Family::new("rearranged", k * 2 * 2, "messages of several sizes, either direction, first or third message: rotations, swaps, reversals in groups, uniform changes, sums kept, repetitions of the MAC, the rest and the whole", move |n, ctx| {
        let mut r = Radix(n);
        let len = lens[r.take(k as usize)];
        let dir = r.take(2);
        let mut s = established()?;
        for _ in 0..r.take(2) * 2 {
            let mut b = pattern(3, 40);
            text(s[dir].send_message(&mut b), || "sending".into())?;
            text(s[1 - dir].recv_message(&mut b), || "receiving".into())?;
        }
        let plain = pattern(5, len);
        let mut m = plain.clone();
        text(s[dir].send_message(&mut m), || format!("sending {} bytes", len))?;
        let count = s[1 - dir].get_message_count();
        let mut b = m.clone();
        for (from, to, name) in [(len - MAC, len, "MAC"), (0, len - MAC, "ciphertext"), (0, len, "message")] {
            for (what, piece) in reshapes(&m[from..to]) {
                b.copy_from_slice(&m);
                b[from..to].copy_from_slice(&piece);
                ctx.transitions += 1;
                if s[1 - dir].recv_message(&mut b).is_ok() {
                    return Err(format!("direction {}, message of {} bytes: accepted with its {} {}", dir, len, name, what));
                }
                if s[1 - dir].get_message_count() != count || !s[1 - dir].is_transport() {
                    return Err(format!("direction {}, message of {} bytes: refusing it with its {} {} changes the session", dir, len, name, what));
                }
                ctx.visit(h(&[16, 5, len as u64, dir as u64, from as u64]));
            }
        }
        text(s[1 - dir].recv_message(&mut m), || format!("the genuine message of {} bytes", len))?;
        if m[..len - MAC] != plain[..len - MAC] {
            return Err(format!("message of {} bytes arrives changed", len));
        }
        if m[len - MAC..] != [0; MAC] {
            return Err(format!("message of {} bytes: received, but its MAC is left in the buffer: {:02x?}", len, &m[len - MAC..]));
        }
        Ok(())
    }));
    let wide = 64usize;
    f.push(Family::new("the MAC is cleared, every size", ((MAX - MAC) / wide + 1) as u64, "messages of every size 16..=65535 in both directions: the plaintext is there, its last 16 bytes are zero", move |n, ctx| {
        let mut s = established()?;
        let lo = MAC + n as usize * wide;
        for len in lo..(lo + wide).min(MAX + 1) {
            for dir in 0..2usize {
                let mut plain = pattern(len as u64, len);
                let mut m = plain.clone();
                text(s[dir].send_message(&mut m), || format!("sending {} bytes", len))?;
                text(s[1 - dir].recv_message(&mut m), || format!("receiving {} bytes", len))?;
                plain[len - MAC..].fill(0);
                if m != plain {
                    let what = if m[..len - MAC] == plain[..len - MAC] { "its MAC is left in the buffer" } else { "it arrives changed" };
                    return Err(format!("direction {}, message of {} bytes: {}", dir, len, what));
                }
                ctx.transitions += 2;
            }
        }
        ctx.visit(h(&[16, 8, n]));
        Ok(())
    }));
    // What messages consist of, and what was never encrypted.
    let all = std::sync::Arc::new(special_contents(tier.thorough()));
    f.push(Family::new(
        "contents, and unencrypted",
        all.len() as u64 * 2,
        "each of several thousand contents (every byte alone, before and after a text; pairs of special characters there; runs; names, keys, frames), either way: refused as it is, with 16 bytes appended (zero, one, those of another message's MAC) and behind an empty message's MAC, and it arrives when sent",
        {
            let all = all.clone();
            move |n, ctx| {
                let (c, dir) = (&all[n as usize / 2], (n % 2) as usize);
                let mut s = established()?;
                let mut empty = vec![0u8; MAC];
                text(s[dir].send_message(&mut empty), || "sending".into())?;
                let mut e = empty.clone();
                text(s[1 - dir].recv_message(&mut e), || "receiving".into())?;
                let mut m = [&c[..], &[0u8; MAC]].concat();
                let mac: &[u8] = &{
                    text(s[dir].send_message(&mut m), || "sending".into())?;
                    m[c.len()..].to_vec()
                };
                let mut plain = vec![c.clone(), [&empty, &c[..]].concat(), [&c[..], &empty].concat()];
                for tail in [&[0u8; MAC][..], &[1; MAC], mac] {
                    plain.push([&c[..], tail].concat());
                    plain.push([tail, &c[..]].concat());
                }
                for p in plain {
                    if p == m {
                        continue;
                    }
                    let mut b = p.clone();
                    ctx.transitions += 1;
                    if s[1 - dir].recv_message(&mut b).is_ok() {
                        return Err(format!("direction {}: accepted although it was never sent: {}", dir, hex::encode(&p)));
                    }
                }
                text(s[1 - dir].recv_message(&mut m), || format!("{} is refused", hex::encode(c)))?;
                if m[..c.len()] != c[..] || m[c.len()..] != [0; MAC] {
                    return Err(format!("direction {}: {} arrives as {}", dir, hex::encode(c), hex::encode(&m)));
                }
                ctx.visit(h(&[16, 9, n]));
                Ok(())
            }
        },
    ));
    f.push(Family::new("unencrypted frames", 256 * 3 * 2, "frames of every type, extension bits (0, channel, other) and 24 payload lengths, their stated length right, without a MAC's or with one's, offered to either end: refused, and the genuine next message arrives", |n, ctx| {
        let mut r = Radix(n);
        let (dir, ext, t) = (r.take(2), [0u16, 0x8000, 1][r.take(3)], r.take(256) as u8);
        let mut s = established()?;
        for len in (0..16usize).chain([16, 17, 24, 32, 50, 100, 255, 256]) {
            for said in [len, len.wrapping_sub(16), len + 16] {
                for fill in [0u8, 1, 0xff] {
                    for le in [true, false] {
                        let l = if le { [said as u8, (said >> 8) as u8, (said >> 16) as u8] } else { [(said >> 16) as u8, (said >> 8) as u8, said as u8] };
                        let e = if le { ext.to_le_bytes() } else { ext.to_be_bytes() };
                        let mut b = [&e[..], &[t], &l, &vec![fill; len]].concat();
                        let p = b.clone();
                        ctx.transitions += 1;
                        if s[1 - dir].recv_message(&mut b).is_ok() {
                            return Err(format!("direction {}: an unencrypted frame is accepted: {}", dir, hex::encode(p)));
                        }
                    }
                }
            }
        }
        let mut m = pattern(n, 40);
        text(s[dir].send_message(&mut m), || "sending".into())?;
        text(s[1 - dir].recv_message(&mut m), || "the genuine message after unencrypted frames is refused".into())?;
        if m[..24] != pattern(n, 40)[..24] {
            return Err("the genuine message after unencrypted frames changes".into());
        }
        ctx.visit(h(&[16, 10, n]));
        Ok(())
    }));
    // All sizes arrive unchanged.
    let step = 32usize;
    f.push(Family::new("all sizes", ((MAX - MAC) / step + 1) as u64, "every size 16..=65535 in both directions, plus a flipped copy refused", move |n, ctx| {
        let mut d = Duo::new(UP)?;
        let lo = MAC + n as usize * step;
        for len in lo..(lo + step).min(MAX + 1) {
            for x in 0..2u8 {
                let id = d.log.len() as u8;
                d.apply(Act::Send(x, len as u32), ctx)?;
                if len % 8 == 0 {
                    d.apply(Act::Recv(1 - x, Src::Log(id), Alt::FlipMid), ctx)?;
                }
                d.apply(Act::Recv(1 - x, Src::Log(id), Alt::Exact), ctx)?;
            }
            if d.log.len() > 20 {
                // Only the last messages matter here; keep the log short.
                let keep = d.log[..2].to_vec();
                d.log = keep;
                d.model[0].seen = 0;
                d.model[1].seen = 0;
            }
        }
        Ok(())
    }));
    // A byte changed anywhere in large messages.
    let nbits = tier.pick(1u32, 8);
    f.push(Family::new("large messages", 128 * 2, format!("65535-byte message in either direction, {} of every byte", ["one bit", "every bit"][(nbits == 8) as usize]), move |n, ctx| {
        let mut r = Radix(n);
        let (x, part) = (r.take(2) as u8, r.take(128) as u32);
        let mut d = Duo::new(UP)?;
        d.apply(Act::Send(x, 65535), ctx)?;
        for byte in part * 512..(part * 512 + 512).min(65535) {
            for k in 0..nbits {
                d.apply(Act::Recv(1 - x, Src::Log(2), Alt::Flip(byte * 8 + (byte + k) % 8)), ctx)?;
            }
        }
        d.apply(Act::Recv(1 - x, Src::Log(2), Alt::Exact), ctx)?;
        Ok(())
    }));
    // Far longer ones, in which each message is offered again at every power of two behind.
    let bits = tier.pick(20u32, 24);
    f.push(
        Family::new("very long conversations with replays", 2, format!("{} messages of one direction; before each the ones 2^16 to 2^{} back, and around every power of two all of the first ones and those any power of two (or one more or less) back, are offered again", (1u64 << bits) + 40, bits), move |dir, ctx| {
            let dir = dir as usize;
            let mut s = established()?;
            let total = (1usize << bits) + 40;
            let mut wires: Vec<[u8; 20]> = Vec::with_capacity(total);
            for n in 0..total {
                let mut b = [0u8; 20];
                b[..4].copy_from_slice(&(n as u32).to_le_bytes());
                text(s[dir].send_message(&mut b), || format!("message {} of direction {} cannot be sent", n, dir))?;
                wires.push(b);
                let near = (0..=bits).any(|b| n.abs_diff(1 << b) <= 20);
                let mut olds: Vec<usize> = vec![];
                if near {
                    olds.extend(0..n.min(24));
                    for k in 0..=bits {
                        olds.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1].iter().filter_map(|d| n.checked_sub((*d).max(1))));
                    }
                } else {
                    olds.extend((16..=bits).filter_map(|k| n.checked_sub(1 << k)));
                }
                for o in olds {
                    let mut x = wires[o];
                    if s[1 - dir].recv_message(&mut x).is_ok() {
                        return Err(format!("direction {}, awaiting message {}: message {} is accepted again", dir, n, o));
                    }
                    ctx.transitions += 1;
                }
                text(s[1 - dir].recv_message(&mut b), || format!("message {} of direction {}", n, dir))?;
                if b[..4] != (n as u32).to_le_bytes() {
                    return Err(format!("message {} of direction {} is changed", n, dir));
                }
                if n % 1024 == 0 {
                    ctx.visit(h(&[16, 79, dir as u64, n as u64]));
                }
                ctx.transitions += 2;
            }
            Ok(())
        })
        .hang(800),
    );
    let total = tier.pick(140_000usize, 3_000_000);
    f.push(
        Family::new("long conversations", 4, format!("{} messages (one way, the other, alternating, in bursts); before each, earlier ones by 1 to 65537, later ones, reflected and altered ones", total), move |n, ctx| {
            long_run(n as usize, 0, total, ctx)
        })
        .hang(800),
    );
    Property { families: f, assumptions: assumptions() }
}

// ---------------------------------------------------------------- C17

pub fn c17(tier: Tier) -> Property {
    const W: Setup = Setup { roles: [true, false], watch: Watch { facts: false, harmless: true }, up: true };
    let mut f = vec![];
    let finish = |d: &mut Duo, ctx: &mut Ctx| -> Res {
        // Everything still in flight arrives, and then one more message each way.
        for x in 0..2u8 {
            while d.next_for(x as usize).is_some() {
                if !d.apply(Act::Next(x), ctx)? {
                    return Err("the next genuine message is refused".into());
                }
            }
        }
        for x in 0..2u8 {
            d.apply(Act::Send(x, 30), ctx)?;
            d.apply(Act::Next(1 - x), ctx)?;
        }
        for x in 0..2 {
            if d.real[x].get_message_count() != d.model[x].count {
                return Err(format!("session {} counts {} messages instead of {}", x, d.real[x].get_message_count(), d.model[x].count));
            }
        }
        Ok(())
    };
    let d1 = tier.pick(if can_fork() { 5usize } else { 4 }, 6);
    f.push(Family::new(
        "one refusal at every history",
        6u64.pow(d1 as u32),
        format!("every history of {} sends/deliveries, every refusal, then all outstanding and two further messages", d1),
        move |n, ctx| {
            let mut r = Radix(n);
            let mut d = Duo::new(W)?;
            for _ in 0..d1 {
                let a = progress(&d)[r.take(6)];
                d.apply(a, ctx)?;
            }
            for a in probes(&d) {
                let mut e = d.fork()?;
                e.apply(a, ctx)?;
                finish(&mut e, ctx)?;
            }
            Ok(())
        },
    ));
    let d2 = tier.pick(if can_fork() { 3usize } else { 2 }, 4);
    f.push(Family::new(
        "two refusals at every history",
        4u64.pow(d2 as u32) * 4,
        format!("every history of {} sends/deliveries with every ordered pair of refusals", d2),
        move |n, ctx| {
            let mut r = Radix(n);
            let mut d = Duo::new(W)?;
            for _ in 0..d2 {
                let a = progress(&d)[r.take(4)];
                d.apply(a, ctx)?;
            }
            let part = r.take(4);
            for (i, a) in probes(&d).into_iter().enumerate() {
                if i % 4 != part {
                    continue;
                }
                let mut e = d.fork()?;
                e.apply(a, ctx)?;
                for b in probes(&e) {
                    let mut g = e.fork()?;
                    g.apply(b, ctx)?;
                    finish(&mut g, ctx)?;
                }
            }
            Ok(())
        },
    ).hang(300));
    f.push(sequences(
        "interleaved refusals",
        W,
        tier.pick(7, 8),
        8,
        Box::new(|d: &Duo| {
            let mut v = progress(d)[..4].to_vec();
            for x in 0..2u8 {
                if let Some(i) = d.next_for(x as usize) {
                    v.push(Act::Recv(x, Src::Log(i as u8), Alt::FlipLast));
                } else {
                    v.push(Act::Recv(x, Src::Noise(40), Alt::Exact));
                }
            }
            v
        }),
    ));
    let total = tier.pick(70_000usize, 1_000_000);
    let streak = tier.pick(1_000_000usize, 40_000_000);
    f.push(
        Family::new("refusals in a row", 2 * 6, format!("{} refusals of one kind in a row (random bytes, nothing but a MAC, the next message altered, a replay, a reflected one, one too short), either direction, traffic before or not", streak), move |n, ctx| {
            let mut r = Radix(n);
            let (dir, what) = (r.take(2), r.take(6));
            for before in [0usize, 3] {
                let mut s = established()?;
                let to = 1 - dir;
                let mut last = vec![0u8; 40];
                for k in 0..before {
                    for d in [dir, to] {
                        let mut b = pattern(k as u64, 40);
                        text(s[d].send_message(&mut b), || "sending".into())?;
                        if d == dir {
                            last = b.clone();
                        }
                        text(s[1 - d].recv_message(&mut b), || "receiving".into())?;
                    }
                }
                let mut plain = pattern(9, 40);
                plain[24..].fill(0);
                let mut next = plain.clone();
                text(s[dir].send_message(&mut next), || "sending".into())?;
                let mut own = pattern(8, 40);
                if what == 4 {
                    text(s[to].send_message(&mut own), || "sending".into())?;
                }
                let bad = match what {
                    0 => pattern(7, 40),
                    1 => vec![0u8; 16],
                    2 => {
                        let mut x = next.clone();
                        x[30] ^= 4;
                        x
                    }
                    3 => last,
                    4 => own,
                    _ => next[..15].to_vec(),
                };
                let count = s[to].get_message_count();
                let mut b = bad.clone();
                for k in 0..streak {
                    b.copy_from_slice(&bad);
                    if s[to].recv_message(&mut b).is_ok() {
                        return Err(format!("direction {}: refusal kind {}: accepted the {}th time", dir, what, k + 1));
                    }
                }
                ctx.transitions += streak as u64;
                ctx.visit(h(&[17, 99, dir as u64, what as u64, before as u64]));
                if s[to].get_message_count() != count || !s[to].is_transport() {
                    return Err(format!("direction {}: {} refusals of kind {} change the session", dir, streak, what));
                }
                text(s[to].recv_message(&mut next), || format!("direction {}: the next genuine message after {} refusals of kind {} in a row", dir, streak, what))?;
                if next[..24] != plain[..24] {
                    return Err(format!("direction {}: the message after {} refusals arrives changed", dir, streak));
                }
            }
            Ok(())
        })
        .hang(800),
    );
    f.push(
        Family::new("refusals all along", 4, format!("{} messages, some twenty refusals before each", total), move |n, ctx| long_run(n as usize, 0, total, ctx)).hang(800),
    );
    // Many refusals in a row.
    f.push(Family::new("many refusals in a row", 2 * 64, "1..=2^16 refusals of one kind, then the genuine message", move |n, ctx| {
        let mut r = Radix(n);
        let x = r.take(2) as u8;
        let k = r.take(64);
        let times = if k < 32 { k + 1 } else { [255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 10000, 65535, 65536, 65537, 70000][k % 14] };
        let mut d = Duo::new(W)?;
        d.apply(Act::Send(1 - x, 40), ctx)?;
        for _ in 0..times {
            d.apply(Act::Recv(x, Src::Log(2), ALTS[k % ALTS.len()]), ctx)?;
            d.hist.clear();
        }
        finish(&mut d, ctx)
    }));
    // Nothing of the plaintext comes out of a refused message of any size.
    let step = 64usize;
    let stride = tier.pick(if can_fork() { 1usize } else { 3 }, 1);
    f.push(Family::new("no plaintext from a refusal, every size", ((MAX - MAC) / step + 1) as u64, format!("every {}. size 16..=65535 in both directions: the MAC's first or last byte, the first, middle or last byte of the ciphertext altered", stride), move |n, ctx| {
        let mut s = established()?;
        let lo = MAC + n as usize * step;
        for len in (lo..(lo + step).min(MAX + 1)).step_by(stride) {
            for dir in 0..2usize {
                let plain = pattern(len as u64, len);
                let mut m = plain.clone();
                text(s[dir].send_message(&mut m), || format!("sending {} bytes", len))?;
                let body = len - MAC;
                let mut places = vec![body, len - 1];
                if body > 0 {
                    places.extend([0, body / 2, body - 1]);
                }
                // The long ones in turn only, to keep the cost down.
                if len > 4096 {
                    places = vec![places[len % places.len()], places[0]];
                }
                for at in places {
                    let mut b = m.clone();
                    b[at] ^= 0x20;
                    ctx.transitions += 1;
                    if s[1 - dir].recv_message(&mut b).is_ok() {
                        return Err(format!("direction {}, message of {} bytes: accepted with byte {} altered", dir, len, at));
                    }
                    // Short coincidences happen; eight plaintext bytes in a row do not.
                    let got = b.iter().zip(&plain[..body]).filter(|(x, y)| x == y).count();
                    let run = b[..body].chunks(8).zip(plain[..body].chunks(8)).filter(|(x, y)| x.len() >= 4 && x == y).count();
                    if run > 0 || got > body / 4 + 12 {
                        return Err(format!(
                            "direction {}, message of {} bytes with byte {} altered: refused, but {} of its {} plaintext bytes are left in the buffer",
                            dir, len, at, got, body
                        ));
                    }
                }
                ctx.visit(h(&[17, 3, len as u64, dir as u64]));
                text(s[1 - dir].recv_message(&mut m), || format!("the genuine message of {} bytes", len))?;
                if m[..body] != plain[..body] {
                    return Err(format!("direction {}: the message of {} bytes arrives changed", dir, len));
                }
            }
        }
        Ok(())
    }));
    // Every single-bit change, then the genuine message, no plaintext left behind.
    let sizes: Vec<u32> = tier.pick(vec![20, 24, 32, 48, 80, 200], (20..260).collect());
    let k = sizes.len();
    f.push(Family::new("every bit, then the genuine message", (k * 2) as u64, "every single-bit change of messages of several sizes", move |n, ctx| {
        let mut r = Radix(n);
        let len = sizes[r.take(k)];
        let x = r.take(2) as u8;
        let mut d = Duo::new(W)?;
        d.apply(Act::Send(x, len), ctx)?;
        for bit in 0..len * 8 {
            let mut e = d.fork()?;
            e.apply(Act::Recv(1 - x, Src::Log(2), Alt::Flip(bit)), ctx)?;
            e.apply(Act::Recv(1 - x, Src::Log(2), Alt::Exact), ctx)?;
        }
        Ok(())
    }));
    Property { families: f, assumptions: assumptions() }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
    FreshI,
    FreshR,
    SentA,
    GotA,
    UpI,
    UpR,
    BrokenI,
    ErasedI,
    ErasedR,
}
const STAGES: [Stage; 9] = [
    Stage::FreshI,
    Stage::FreshR,
    Stage::SentA,
    Stage::GotA,
    Stage::UpI,
    Stage::UpR,
    Stage::BrokenI,
    Stage::ErasedI,
    Stage::ErasedR,
];

/// The pair at a stage: (the session to be called, its peer, the message in flight towards it).
fn at(stage: Stage) -> Result<(NoiseSession, NoiseSession, Vec<u8>), String> {
    let mut i = session(true, b"mc", 1, 3);
    let mut r = session(false, b"mc", 2, 4);
    let mut a = pattern(1, 140);
    if stage == Stage::FreshI {
        return Ok((i, r, a));
    }
    text(i.send_message(&mut a), || "send A".into())?;
    if stage == Stage::FreshR {
        return Ok((r, i, a));
    }
    let mut x = a.clone();
    text(r.recv_message(&mut x), || "recv A".into())?;
    if stage == Stage::GotA {
        return Ok((r, i, a));
    }
    let mut b = pattern(2, 150);
    text(r.send_message(&mut b), || "send B".into())?;
    if stage == Stage::SentA {
        return Ok((i, r, b));
    }
    if stage == Stage::BrokenI {
        let mut x = flip(&b, 300);
        let _ = i.recv_message(&mut x);
        return Ok((i, r, b));
    }
    text(i.recv_message(&mut b), || "recv B".into())?;
    let mut t = pattern(3, 60);
    Ok(match stage {
        Stage::UpI | Stage::ErasedI => {
            text(r.send_message(&mut t), || "send".into())?;
            if stage == Stage::ErasedI {
                i.clear_local_cipherstate();
                i.clear_remote_cipherstate();
            }
            (i, r, t)
        }
        _ => {
            text(i.send_message(&mut t), || "send".into())?;
            if stage == Stage::ErasedR {
                r.clear_local_cipherstate();
                r.clear_remote_cipherstate();
            }
            (r, i, t)
        }
    })
}

/// Carries the genuine exchange on from a stage to its end, with one message each way.
fn carry_on(stage: Stage, me: &mut NoiseSession, peer: &mut NoiseSession, inflight: &[u8]) -> Res {
    let go = |r: Result<(), noiseexplorer_nx::error::NoiseError>, what: &str| -> Res {
        r.map_err(|e| format!("{} no longer works: {}", what, e))
    };
    let mut m = inflight.to_vec();
    let (init_is_me, mut b);
    match stage {
        Stage::FreshI => {
            let mut a = pattern(1, 140);
            go(me.send_message(&mut a), "sending the first message")?;
            go(peer.recv_message(&mut a), "receiving the first message")?;
            b = pattern(2, 150);
            go(peer.send_message(&mut b), "sending the reply")?;
            go(me.recv_message(&mut b), "receiving the reply")?;
            init_is_me = true;
        }
        Stage::FreshR => {
            go(me.recv_message(&mut m), "receiving the first message")?;
            b = pattern(2, 150);
            go(me.send_message(&mut b), "sending the reply")?;
            go(peer.recv_message(&mut b), "receiving the reply")?;
            init_is_me = false;
        }
        Stage::GotA => {
            b = pattern(2, 150);
            go(me.send_message(&mut b), "sending the reply")?;
            go(peer.recv_message(&mut b), "receiving the reply")?;
            init_is_me = false;
        }
        Stage::SentA => {
            go(me.recv_message(&mut m), "receiving the reply")?;
            init_is_me = true;
        }
        Stage::UpI | Stage::UpR => {
            go(me.recv_message(&mut m), "receiving the message in flight")?;
            if m[..44] != pattern(3, 60)[..44] {
                return Err("the message in flight arrives changed".into());
            }
            init_is_me = stage == Stage::UpI;
        }
        _ => return Ok(()),
    }
    if !me.is_transport() || !peer.is_transport() || me.get_handshake_hash() != peer.get_handshake_hash() {
        return Err("the handshake does not complete any more".into());
    }
    let _ = init_is_me;
    for k in 0..2 {
        let (x, y) = if k == 0 { (&mut *me, &mut *peer) } else { (&mut *peer, &mut *me) };
        let p = pattern(11 + k, 30);
        let mut t = p.clone();
        go(x.send_message(&mut t), "sending a message")?;
        go(y.recv_message(&mut t), "receiving a message")?;
        if t[..14] != p[..14] {
            return Err("a message changes in transit".into());
        }
    }
    Ok(())
}

/// Sizes for which a call at a stage is refused because of the size alone.
fn bad_size(stage: Stage, send: bool, n: usize) -> bool {
    if n > MAX {
        return true;
    }
    let min = match (stage, send) {
        (Stage::FreshI, true) | (Stage::FreshR, false) => MIN_A,
        (Stage::SentA, false) | (Stage::GotA, true) | (Stage::BrokenI, false) => MIN_B,
        _ => MAC,
    };
    n < min
}

/// A call in turn (as opposed to one that is refused whatever its size).
fn in_turn(stage: Stage, send: bool) -> bool {
    match stage {
        Stage::FreshI | Stage::GotA => send,
        Stage::FreshR | Stage::SentA | Stage::BrokenI => !send,
        _ => true,
    }
}

fn contents(kind: usize, n: usize, genuine: &[u8]) -> Vec<u8> {
    match kind {
        0 => {
            let mut v = genuine.to_vec();
            v.resize(n, 0);
            v
        }
        1 => pattern(n as u64 + 9, n),
        2 => vec![0; n],
        3 => vec![0xff; n],
        _ => {
            // The genuine message at the end.
            let mut v = vec![1u8; n];
            let k = genuine.len().min(n);
            v[n - k..].copy_from_slice(&genuine[genuine.len() - k..]);
            v
        }
    }
}

/// Everything a session tells about itself.
fn facts(s: &NoiseSession) -> (u128, bool, Option<[u8; 32]>, Option<[u8; 32]>) {
    (s.get_message_count(), s.is_transport(), s.get_handshake_hash(), s.get_remote_static_public_key().map(|k| k.as_bytes()))
}

fn any_call(stage: Stage, send: bool, kind: usize, n: usize, ctx: &mut Ctx) -> Res {
    ctx.note(|| format!("{:?} {} {} bytes, contents {}", stage, if send { "send" } else { "recv" }, n, kind));
    let what = || format!("{} of {} bytes (contents {}) at stage {:?}", if send { "send" } else { "recv" }, n, kind, stage);
    let (mut me, mut peer, inflight) = at(stage)?;
    let mut buf = contents(kind, n, &inflight);
    let before = facts(&me);
    let r = guarded(|| {
        if send {
            me.send_message(&mut buf).is_ok()
        } else {
            me.recv_message(&mut buf).is_ok()
        }
    });
    let ok = match r {
        Ok(ok) => ok,
        Err(p) => return Err(format!("{}: {}", what(), p)),
    };
    ctx.visit(h(&[18, stage as u64, send as u64, n as u64, ok as u64]));
    let must_not = bad_size(stage, send, n);
    if must_not && ok {
        return Err(format!("{} succeeds", what()));
    }
    if ok {
        ctx.count("succeeds");
        return Ok(());
    }
    if must_not && facts(&me) != before {
        return Err(format!("{} is refused and changes what the session reports", what()));
    }
    if must_not || !in_turn(stage, send) {
        ctx.count("refused for size or turn, exchange carried on");
        if !must_not {
            // An out-of-turn refusal is the business of C15.
            return Ok(());
        }
        return carry_on(stage, &mut me, &mut peer, &inflight).map_err(|e| format!("after a refused {}: {}", what(), e));
    }
    ctx.count("refused for contents");
    Ok(())
}

pub fn c18(tier: Tier) -> Property {
    let mut f = vec![];
    // Every size around the limits with all contents.
    let sizes: Vec<usize> = (0..tier.pick(400, 3000)).chain(65500..65620).chain([70_000, 131_072, 1 << 20]).collect();
    let k = sizes.len();
    f.push(Family::new(
        "sizes near the limits",
        (STAGES.len() * 2 * 5 * k) as u64,
        "every stage, send and receive, five contents, every size around the limits; the exchange is carried on after every refusal for size",
        move |n, ctx| {
            let mut r = Radix(n);
            let stage = STAGES[r.take(STAGES.len())];
            let send = r.take(2) == 0;
            let kind = r.take(5);
            any_call(stage, send, kind, sizes[r.take(k)], ctx)
        },
    ));
    // Every size at all.
    let kinds = tier.pick(1usize, 3);
    let nst = tier.pick(6, STAGES.len());
    f.push(Family::new(
        "every size",
        (nst * 2 * kinds * 65601) as u64,
        "every stage, send and receive, every size 0..=65600",
        move |n, ctx| {
            let mut r = Radix(n);
            let stage = STAGES[r.take(nst)];
            let send = r.take(2) == 0;
            let kind = [1, 0, 2][r.take(kinds)];
            any_call(stage, send, kind, r.take(65601), ctx)
        },
    ));
    // Several refusals of different sizes in a row.
    let wrong: Vec<usize> = vec![0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 64, 79, 80, 95, 65536, 70_000];
    let w = wrong.len();
    f.push(Family::new(
        "pairs of refusals",
        (STAGES.len() * 2 * 2 * w * w) as u64,
        "every stage, every ordered pair of wrong-size calls, then the exchange is carried on",
        move |n, ctx| {
            let mut r = Radix(n);
            let stage = STAGES[r.take(STAGES.len())];
            let (s1, s2) = (r.take(2) == 0, r.take(2) == 0);
            let (n1, n2) = (wrong[r.take(w)], wrong[r.take(w)]);
            if !bad_size(stage, s1, n1) || !bad_size(stage, s2, n2) {
                ctx.uncounted = true;
                return Ok(());
            }
            let (mut me, mut peer, inflight) = at(stage)?;
            for (s, n) in [(s1, n1), (s2, n2)] {
                let mut b = contents(0, n, &inflight);
                let before = facts(&me);
                let ok = if s { me.send_message(&mut b).is_ok() } else { me.recv_message(&mut b).is_ok() };
                if ok {
                    return Err(format!("a call with {} bytes succeeds at stage {:?}", n, stage));
                }
                if facts(&me) != before {
                    return Err(format!("a refused call with {} bytes at stage {:?} changes what the session reports", n, stage));
                }
            }
            ctx.visit(h(&[18, 9, stage as u64, n1 as u64, n2 as u64]));
            carry_on(stage, &mut me, &mut peer, &inflight).map_err(|e| format!("stage {:?} after wrong-size calls {} ({}) and {} ({}): {}", stage, n1, s1, n2, s2, e))
        },
    ));
    // Every other call of a session, at every stage.
    let depth = tier.pick(3u32, 5);
    let calls = 14u64;
    f.push(Family::new(
        "sequences of all calls",
        STAGES.len() as u64 * calls.pow(depth),
        format!("every stage, every sequence of {} of: rekey or erase either direction, supply an ephemeral pair (usable or erased), ask for hash, key, count and phase, send and receive with usual and unusual sizes; then the session is ended", depth),
        move |n, ctx| {
            let mut r = Radix(n);
            let stage = STAGES[r.take(STAGES.len())];
            let (mut me, mut peer, inflight) = at(stage)?;
            let mut at = vec![18, 11, stage as u64];
            for _ in 0..depth {
                let c = r.take(calls as usize);
                at.push(c as u64);
                ctx.note(|| format!("{:?}: call {}", stage, c));
                match c {
                    0 => me.rekey_local_cipherstate(),
                    1 => me.rekey_remote_cipherstate(),
                    2 => me.clear_local_cipherstate(),
                    3 => me.clear_remote_cipherstate(),
                    4 => me.set_ephemeral_keypair(pair(5)),
                    5 => {
                        let mut e = pair(6);
                        e.clear();
                        me.set_ephemeral_keypair(e);
                    }
                    6 => {
                        let known = (me.get_handshake_hash().is_some(), me.get_remote_static_public_key().is_some());
                        if known != (me.is_transport(), me.is_transport()) {
                            return Err(format!("{:?}: phase {} but hash and key {:?}", stage, me.is_transport(), known));
                        }
                        let _ = me.get_message_count();
                    }
                    7 => {
                        let mut b = inflight.clone();
                        let _ = me.recv_message(&mut b);
                    }
                    8 => {
                        let mut b = pattern(1, 128);
                        if me.send_message(&mut b).is_ok() {
                            let _ = peer.recv_message(&mut b);
                        }
                    }
                    9 => {
                        let mut b = pattern(2, 96);
                        if peer.send_message(&mut b).is_ok() {
                            let _ = me.recv_message(&mut b);
                        }
                    }
                    10 => {
                        let _ = me.send_message(&mut [0u8; 16]);
                    }
                    11 => {
                        let _ = me.recv_message(&mut [0u8; 16]);
                    }
                    12 => {
                        let _ = me.recv_message(&mut []);
                    }
                    _ => {
                        let _ = me.recv_message(&mut [0xff; 96]);
                    }
                }
            }
            ctx.visit(h(&at));
            me.end_session();
            peer.end_session();
            Ok(())
        },
    ));
    // On threads with little stack.
    let ns = STAGES.len();
    f.push(Family::new("threads with little stack", (ns * 2 * 5 * 8) as u64, "every stage, send and receive, five contents, eight sizes, on a thread of 512 KiB of stack", move |n, ctx| {
        let mut r = Radix(n);
        let (stage, send, kind) = (STAGES[r.take(ns)], r.take(2) == 0, r.take(5));
        let size = [0, 16, 40, 96, 128, 1024, 65535, 65536][r.take(8)];
        let mut out = Ok(());
        std::thread::scope(|s| {
            let t = std::thread::Builder::new().stack_size(512 * 1024).spawn_scoped(s, || {
                guarded(|| any_call(stage, send, kind, size, ctx)).unwrap_or_else(Err)
            });
            out = match t {
                Ok(t) => t.join().unwrap_or_else(|_| Err("a thread ends in a panic".into())),
                Err(e) => Err(format!("harness: no thread: {}", e)),
            };
        });
        out
    }));
    // Whatever is called in whatever order, nothing panics.
    for roles in [[true, false], [true, true], [false, false]] {
        f.push(sequences(
            format!("call sequences of all sizes, roles {:?}", roles),
            Setup { roles, watch: Watch::default(), up: false },
            tier.pick(4, 5),
            60,
            Box::new(|d: &Duo| {
                let mut v = vec![];
                for x in 0..2u8 {
                    for n in [0u32, 15, 16, 31, 32, 47, 48, 95, 96, 128, 65536] {
                        v.push(Act::Send(x, n));
                    }
                    for n in [0u32, 16, 31, 48, 95, 96] {
                        v.push(Act::Recv(x, Src::Noise(n), Alt::Exact));
                    }
                    for i in 0..d.log.len() {
                        v.push(Act::Recv(x, Src::Log(i as u8), Alt::Exact));
                        v.push(Act::Recv(x, Src::Log(i as u8), Alt::CutTo(16)));
                    }
                }
                v
            }),
        ));
    }
    Property { families: f, assumptions: assumptions() }
}

// ---------------------------------------------------------------- C19

/// Where one end keeps the message number of one direction: the object itself or a block its
/// calls have allocated, the place of the low and (if a carry was seen) the high half, the
/// direction it counts in and the value at number zero.
#[derive(Clone, Copy, Debug)]
struct Place {
    region: usize,
    low: usize,
    high: Option<usize>,
    up: bool,
    base: u64,
}

/// Both ends of each direction: places[direction][end].
type Places = [[Place; 2]; 2];

/// A pair that is up, whose allocations are remembered.
fn watched_pair() -> Result<(Box<NoiseSession>, Box<NoiseSession>, rn::Done), String> {
    alloc::forget();
    let (i, r, d) = alloc::watching(up_pair)?;
    Ok((Box::new(i), Box::new(r), d))
}

/// The two sessions' memory and their blocks, as address and length.
fn regions(i: &NoiseSession, r: &NoiseSession) -> Vec<(usize, usize)> {
    let n = std::mem::size_of::<NoiseSession>();
    let mut v = vec![(i as *const NoiseSession as usize, n), (r as *const NoiseSession as usize, n)];
    v.extend(alloc::blocks());
    v
}

fn half(regions: &[(usize, usize)], region: usize, at: usize) -> u32 {
    let (p, n) = regions[region];
    assert!(at + 4 <= n);
    unsafe { std::ptr::read_volatile((p + at) as *const u32) }
}

fn set_half(regions: &[(usize, usize)], region: usize, at: usize, v: u32) {
    let (p, n) = regions[region];
    assert!(at + 4 <= n);
    unsafe { std::ptr::write_volatile((p + at) as *mut u32, v) }
}

/// All aligned 32-bit words.
fn halves(i: &NoiseSession, r: &NoiseSession) -> Vec<((usize, usize), u32)> {
    let g = regions(i, r);
    let mut v = vec![];
    for (k, (p, n)) in g.iter().enumerate() {
        if p % 4 == 0 {
            v.extend((0..n / 4).map(|w| ((k, 4 * w), half(&g, k, 4 * w))));
        }
    }
    v
}

fn poke(i: &mut NoiseSession, r: &mut NoiseSession, p: &Place, n: u64) {
    let g = regions(i, r);
    let v = if p.up { p.base.wrapping_add(n) } else { p.base.wrapping_sub(n) };
    set_half(&g, p.region, p.low, v as u32);
    if let Some(h) = p.high {
        set_half(&g, p.region, h, (v >> 32) as u32);
    }
}

/// One message in this direction; what went over the wire, and whether it was accepted.
fn one(i: &mut NoiseSession, r: &mut NoiseSession, dir: usize) -> Option<(Vec<u8>, bool)> {
    let mut b = pattern(3, 40);
    let (x, y) = if dir == 0 { (i, r) } else { (r, i) };
    alloc::watching(|| x.send_message(&mut b)).ok()?;
    let wire = b.clone();
    Some((wire, alloc::watching(|| y.recv_message(&mut b)).is_ok()))
}

/// Finds the places by watching the sessions count, and confirms that they select the number.
fn nonce_places() -> Option<Places> {
    let mut out: Vec<Vec<Place>> = vec![];
    for dir in 0..2 {
        // Words that go up or down by one with every message.
        let (mut i, mut r, _) = watched_pair().ok()?;
        let mut snaps = vec![halves(&i, &r)];
        for _ in 0..6 {
            if !one(&mut i, &mut r, dir)?.1 {
                return None;
            }
            snaps.push(halves(&i, &r));
            if snaps[0].len() != snaps[snaps.len() - 1].len() {
                return None;
            }
        }
        let mut found: Vec<Place> = vec![];
        for up in [true, false] {
            for (k, ((region, low), first)) in snaps[0].iter().enumerate() {
                let step = |v: u32| if up { first.wrapping_add(v) } else { first.wrapping_sub(v) };
                if (0..snaps.len()).all(|m| snaps[m][k] == ((*region, *low), step(m as u32))) {
                    found.push(Place { region: *region, low: *low, high: None, up, base: *first as u64 });
                }
            }
        }
        // Those that select the number: the sender's shows on the wire, the receiver's in what
        // it accepts. They are the only pair of candidates for which this holds.
        let mut good: Vec<[Place; 2]> = vec![];
        for s in &found {
            for t in &found {
                if (s.region, s.low) == (t.region, t.low) {
                    continue;
                }
                let selects = |v: u64| -> Option<()> {
                    let (mut i, mut r, d) = watched_pair().ok()?;
                    let want = rp::seal(if dir == 0 { &d.c1.k } else { &d.c2.k }, v, &[], &pattern(3, 40)[..24]);
                    // With the sender's place alone, the receiver takes it for a skipped message.
                    poke(&mut i, &mut r, s, v);
                    if one(&mut i, &mut r, dir)? != (want.clone(), false) {
                        return None;
                    }
                    let (mut i, mut r, _) = watched_pair().ok()?;
                    poke(&mut i, &mut r, s, v);
                    poke(&mut i, &mut r, t, v);
                    (one(&mut i, &mut r, dir)? == (want, true)).then_some(())
                };
                let ok = [1u64, 5, 9].iter().all(|v| selects(*v).is_some());
                if ok {
                    good.push([*s, *t]);
                }
            }
        }
        if good.len() != 1 {
            return None;
        }
        let mut pair = good[0];
        // The high halves are the words a carry goes to.
        for e in 0..2 {
            let (mut i, mut r, _) = watched_pair().ok()?;
            for p in pair {
                poke(&mut i, &mut r, &Place { high: None, ..p }, 0xffff_fffe);
            }
            let before = halves(&i, &r);
            for _ in 0..3 {
                let _ = one(&mut i, &mut r, dir);
            }
            let after = halves(&i, &r);
            let p = pair[e];
            let carried: Vec<usize> = (0..before.len().min(after.len()))
                .filter(|k| {
                    let ((g, at), v) = before[*k];
                    let w = after[*k].1;
                    g == p.region && at != p.low && (at as isize - p.low as isize).abs() <= 16 && w == if p.up { v.wrapping_add(1) } else { v.wrapping_sub(1) }
                })
                .collect();
            if carried.len() == 1 {
                let ((_, at), v) = before[carried[0]];
                pair[e].high = Some(at);
                pair[e].base |= (v as u64) << 32;
            }
        }
        out.push(pair.to_vec());
    }
    let p: Places = [[out[0][0], out[0][1]], [out[1][0], out[1][1]]];
    Some(p)
}

/// Sends messages in one direction from number `from` on and checks each number used.
fn numbers(dir: usize, from: u64, count: u64, places: &Places, rekey: bool, bad: bool, ctx: &mut Ctx) -> Res {
    let (mut i, mut r, mut d) = watched_pair()?;
    for p in &places[dir] {
        poke(&mut i, &mut r, p, from);
    }
    let key = if dir == 0 { &mut d.c1 } else { &mut d.c2 };
    key.n = from;
    let mut n = from;
    for k in 0..count {
        let (x, y) = if dir == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
        if rekey && k == 1 {
            for s in [&mut *x, &mut *y] {
                if dir == 0 {
                    s.rekey_local_cipherstate()
                } else {
                    s.rekey_remote_cipherstate()
                }
            }
            key.rekey();
        }
        let p = pattern(k + 1, 40);
        let mut b = p.clone();
        let ok = x.send_message(&mut b).is_ok();
        ctx.visit(h(&[19, dir as u64, n, ok as u64]));
        ctx.note(|| format!("number {} {}", n, if ok { "sent" } else { "refused" }));
        if n == u64::MAX {
            if ok {
                return Err(format!("direction {}: a message is sent after the number space is exhausted", dir));
            }
            // A receiver at the end accepts nothing either: neither the number that would come
            // next nor the first one again.
            for m in [u64::MAX, 0, 1, u64::MAX - 1] {
                let mut c = rp::seal(&key.k, m, &[], &p[..24]);
                if y.recv_message(&mut c).is_ok() {
                    return Err(format!("direction {}: an exhausted receiver accepts message number {}", dir, m));
                }
            }
            continue;
        }
        if !ok {
            return Err(format!("direction {}: message number {} cannot be sent", dir, n));
        }
        let want = rp::seal(&key.k, n, &[], &p[..24]);
        if b != want {
            // Which number was used instead?
            let used = [0, n.wrapping_sub(1), n as u8 as u64, n as u16 as u64, n as u32 as u64, n.wrapping_add(1)]
                .into_iter()
                .find(|m| rp::seal(&key.k, *m, &[], &p[..24]) == b);
            return Err(format!("direction {}: message number {} is encrypted under {:?}", dir, n, used));
        }
        if bad {
            let mut c = flip(&b, 3);
            if y.recv_message(&mut c).is_ok() {
                return Err("an altered message is accepted".into());
            }
            let mut c = rp::seal(&key.k, n.wrapping_add(1), &[], &p[..24]);
            if y.recv_message(&mut c).is_ok() {
                return Err(format!("direction {}: number {} is accepted in place of {}", dir, n.wrapping_add(1), n));
            }
        }
        let c = b.clone();
        if y.recv_message(&mut b).is_err() || b[..24] != p[..24] {
            return Err(format!("direction {}: message number {} does not arrive", dir, n));
        }
        let mut again = c.clone();
        if y.recv_message(&mut again).is_ok() {
            return Err(format!("direction {}: message number {} is accepted twice", dir, n));
        }
        // The reference also hands the receiver a number it has passed.
        if n > 0 {
            let mut old = rp::seal(&key.k, n - 1, &[], &p[..24]);
            if y.recv_message(&mut old).is_ok() {
                return Err(format!("direction {}: number {} is accepted after {}", dir, n - 1, n));
            }
        }
        n += 1;
    }
    Ok(())
}

pub fn c19(tier: Tier) -> Property {
    rp::self_check();
    let mut f = vec![];
    // Stepping from zero.
    let long = tier.pick(70_000u64, 1 << 24);
    let lanes = tier.pick(4u64, 8);
    f.push(
        Family::new("consecutive numbers from zero", lanes, format!("{} consecutive messages, each checked against the prescribed number; one direction, both, alternating, with refusals in between", long), move |lane, ctx| {
            let (mut i, mut r, mut d) = up_pair()?;
            for k in 0..long {
                if lane % 4 != 1 {
                    transport(&mut i, &mut r, &mut d.c1, 20, k)?;
                }
                if lane % 4 != 0 {
                    transport(&mut r, &mut i, &mut d.c2, 20, k + 1)?;
                }
                if lane % 4 == 3 && k % 5 == 0 {
                    let _ = r.recv_message(&mut pattern(k, 20));
                    let _ = i.recv_message(&mut pattern(k, 20));
                    let _ = i.send_message(&mut [0u8; 3]);
                }
                if lane >= 4 && k % 1000 == 999 {
                    i.rekey_local_cipherstate();
                    r.rekey_local_cipherstate();
                    d.c1.rekey();
                }
                ctx.transitions += 2;
                if k & 0xff == 0 {
                    ctx.visit(h(&[19, 9, d.c1.n, d.c2.n]));
                }
            }
            Ok(())
        })
        .hang(800),
    );
    // Jumping to the boundaries.
    match guarded(nonce_places) {
        Ok(Some(w)) => {
            let whole = w.iter().flatten().all(|p| p.high.is_some());
            let mut starts: Vec<u64> = vec![];
            let span = tier.pick(40u64, 2000);
            for b in 0..64 {
                starts.push((1u64 << b).saturating_sub(span / 2));
            }
            for x in [3u64, 5, 7, 9, 0xff, 0xfff] {
                for s in (0..64 - 12).step_by(4) {
                    starts.push((x << s).saturating_sub(span / 2));
                }
            }
            // The last numbers: the exhausted state is entered by stepping.
            for k in 1..12 {
                starts.push(u64::MAX - span + k);
                starts.push(u64::MAX - k);
            }
            starts.sort();
            starts.dedup();
            if !whole {
                // No carry was seen, so only the low half can be set; 2^32 itself is stepped over.
                starts.retain(|s| *s < 1 << 32);
            }
            let n = starts.len();
            f.push(Family::new(
                if whole { "numbers around every power of two and at the end" } else { "numbers around every power of two up to 2^32" },
                (n * 2 * 2 * 2) as u64,
                format!("{} starting points, {} consecutive messages each, both directions, with and without a rekey and refusals; the end of the 64-bit space is stepped over", n, span + 20),
                move |idx, ctx| {
                    let mut r = Radix(idx);
                    let s = starts[r.take(n)];
                    let dir = r.take(2);
                    let rekey = r.take(2) == 1;
                    let bad = r.take(2) == 1;
                    numbers(dir, s, span + 20, &w, rekey, bad, ctx)
                },
            ));
        }
        _ => {
            // The session's memory layout is not the expected one; the jump is not possible and
            // nothing is claimed about it in this run.
            f.push(Family::new("numbers around every power of two and at the end: NOT EXPLORED (message numbers not located)", 0, "none", |_, _| Ok(())));
        }
    }
    let mut a = assumptions();
    a.push("To reach large message numbers the check sets the message number inside the session's memory (or a block it allocated); the place is located by observing which word counts messages, up or down, and which one takes the carry, and confirmed for small numbers. If it cannot be located only the stepwise family is explored (named in the evidence).".into());
    Property { families: f, assumptions: a }
}

// ---------------------------------------------------------------- C20

pub fn c20(tier: Tier) -> Property {
    let mut f = vec![];
    let all = |d: &Duo| -> Vec<Act> {
        let mut v = vec![];
        for x in 0..2u8 {
            v.push(Act::Send(x, 40));
            for i in 2..d.log.len() {
                if d.log[i].from != x || d.next_for(x as usize).is_some() {
                    v.push(Act::Recv(x, Src::Log(i as u8), Alt::Exact));
                }
            }
            v.push(Act::RekeyLocal(x));
            v.push(Act::RekeyRemote(x));
            v.push(Act::EraseLocal(x));
            v.push(Act::EraseRemote(x));
        }
        v
    };
    f.push(sequences("rekey, erase, send and deliver", UP, tier.pick(6, 7), 24, Box::new(all)));
    // Longer, without erasing: messages lost, repeated and out of order around rekeys.
    f.push(sequences(
        "rekey, send and deliver",
        UP,
        tier.pick(8, 9),
        24,
        Box::new(|d: &Duo| {
            let mut v = vec![];
            for x in 0..2u8 {
                v.push(Act::Send(x, if d.log.len() % 2 == 0 { 24 } else { 16 }));
                for i in 2..d.log.len() {
                    if d.log[i].from != x {
                        v.push(Act::Recv(x, Src::Log(i as u8), Alt::Exact));
                    }
                }
                v.push(Act::RekeyLocal(x));
                v.push(Act::RekeyRemote(x));
            }
            v
        }),
    ));
    // One direction, deeper: both ends rekey, messages may be lost or repeated.
    for dir in 0..2u8 {
        f.push(sequences(
            format!("one direction ({}) with losses and rekeys of either or both ends", dir),
            UP,
            tier.pick(10, 11),
            24,
            Box::new(move |d: &Duo| {
                let mut v = vec![Act::Send(dir, if d.log.len() % 3 == 0 { 16 } else { 20 })];
                for i in 2..d.log.len() {
                    v.push(Act::Recv(1 - dir, Src::Log(i as u8), Alt::Exact));
                }
                for x in 0..2 {
                    v.push(if dir == 0 { Act::RekeyLocal(x) } else { Act::RekeyRemote(x) });
                }
                v
            }),
        ));
    }
    // Synchronised rekeys: traffic continues.
    let depth = tier.pick(7u32, 9);
    f.push(Family::new(
        "rekeys at both ends",
        5u64.pow(depth),
        format!("every sequence of {} of: message either way, rekey of either direction at both ends, message left in flight over a rekey", depth),
        move |n, ctx| {
            let mut r = Radix(n);
            let mut d = Duo::new(UP)?;
            for _ in 0..depth {
                match r.take(5) {
                    k @ (0 | 1) => {
                        let x = k as u8;
                        d.apply(Act::Send(x, 24), ctx)?;
                        d.apply(Act::Next(1 - x), ctx)?;
                    }
                    2 => {
                        d.apply(Act::RekeyLocal(0), ctx)?;
                        d.apply(Act::RekeyLocal(1), ctx)?;
                    }
                    3 => {
                        d.apply(Act::RekeyRemote(1), ctx)?;
                        d.apply(Act::RekeyRemote(0), ctx)?;
                    }
                    _ => {
                        // Sender rekeys, sends; the message is refused until the receiver follows.
                        d.apply(Act::RekeyLocal(0), ctx)?;
                        d.apply(Act::Send(0, 24), ctx)?;
                        if d.apply(Act::Next(1), ctx)? {
                            return Err("a message under a new key is accepted under the old one".into());
                        }
                        d.apply(Act::RekeyLocal(1), ctx)?;
                        if !d.apply(Act::Next(1), ctx)? {
                            return Err("after both ends rekeyed the message is refused".into());
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    // Many rekeys in a row are all different keys.
    let many = tier.pick(300usize, 3000);
    let every: Vec<usize> = (1..=tier.pick(24, 300)).chain([50, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1024]).collect();
    let ne = every.len();
    let total = tier.pick(20_000usize, 300_000);
    f.push(
        Family::new("rekeys all along", (4 * ne) as u64, format!("{} messages with a rekey at both ends every so many messages; old, reflected and altered ones offered before each", total), move |n, ctx| {
            let mut r = Radix(n);
            long_run(r.take(4), every[r.take(ne)], total, ctx)
        })
        .hang(800),
    );
    f.push(
        Family::new("late rekeys", 4 * 3, "conversations of 70000 messages with a rekey at both ends after 32768, 65535 or 65536", |n, ctx| {
            let mut r = Radix(n);
            long_run(r.take(4), [32768, 65535, 65536][r.take(3)], 70_000, ctx)
        })
        .hang(800),
    );
    let late: Vec<usize> = (0..tier.pick(300, 1100)).chain([32767, 32768, 65535, 65536, 65537, 70_000]).collect();
    let nl = late.len();
    f.push(
        Family::new("late erasures", (nl * 4 * 2) as u64, "either end erases either direction after so many messages, also after a rekey: nothing passes at that end from then on", move |n, ctx| {
            let mut r = Radix(n);
            let (count, x, dir, rekeyed) = (late[r.take(nl)], r.take(2), r.take(2), r.take(2) == 1);
            let mut s = established()?;
            let mut buf = [0u8; 24];
            let mut old = vec![];
            for k in 0..=count {
                if rekeyed && k == count / 2 {
                    rekey_dir(&mut s[0], dir);
                    rekey_dir(&mut s[1], dir);
                }
                text(s[dir].send_message(&mut buf), || format!("message {}", k))?;
                old = buf.to_vec();
                if k < count {
                    text(s[1 - dir].recv_message(&mut buf), || format!("message {}", k))?;
                }
            }
            ctx.visit(h(&[20, 78, n]));
            if dir == 0 {
                s[x].clear_local_cipherstate()
            } else {
                s[x].clear_remote_cipherstate()
            }
            for k in 0..3 {
                let passes = if x == dir {
                    let mut b = [7u8; 40];
                    s[x].send_message(&mut b).is_ok()
                } else {
                    let mut b = old.clone();
                    s[x].recv_message(&mut b).is_ok()
                };
                if passes {
                    return Err(format!("end {} erases direction {} after {} messages and a message still passes (attempt {})", x, dir, count, k));
                }
                if k == 1 {
                    rekey_dir(&mut s[x], dir);
                }
            }
            // The other direction still works.
            let mut b = pattern(6, 40);
            text(s[1 - dir].send_message(&mut b), || "sending in the direction that was not erased".into())?;
            text(s[dir].recv_message(&mut b), || "receiving in the direction that was not erased".into())?;
            Ok(())
        })
        .hang(100),
    );
    f.push(Family::new("many rekeys", 2 * 2, format!("{} rekeys in a row: each generation is its own", many), move |n, ctx| {
        let mut r = Radix(n);
        let dir = r.take(2) as u8;
        let by = r.take(2);
        let mut d = Duo::new(UP)?;
        for k in 0..many {
            let (a, b) = if dir == 0 { (Act::RekeyLocal(0), Act::RekeyLocal(1)) } else { (Act::RekeyRemote(1), Act::RekeyRemote(0)) };
            let from = dir;
            let (first, second) = if by == 0 { (a, b) } else { (b, a) };
            d.apply(first, ctx)?;
            d.hist.clear();
            d.apply(Act::Send(from, 24), ctx)?;
            if d.apply(Act::Next(1 - from), ctx)? {
                return Err(format!("rekey {}: one end rekeyed, the message is accepted", k));
            }
            d.apply(second, ctx)?;
            let ok = d.apply(Act::Next(1 - from), ctx)?;
            if by == 1 && ok {
                return Err("a message under the old key is accepted after a rekey".into());
            }
            if by == 1 {
                // That message is lost; start over.
                d = Duo::new(UP)?;
                for _ in 0..=k.min(20) {
                    d.apply(a, ctx)?;
                    d.apply(b, ctx)?;
                }
                continue;
            }
            if !ok {
                return Err(format!("rekey {}: both ends rekeyed, the message is refused", k));
            }
            let keep = d.log[..2].to_vec();
            d.log = keep;
            d.model[0].seen = 0;
            d.model[1].seen = 0;
        }
        Ok(())
    }).hang(300));
    // Erased directions stay dead, whatever follows; the other direction is untouched.
    let depth = tier.pick(5u32, 7);
    f.push(Family::new(
        "after an erasure",
        4 * 4 * 6u64.pow(depth),
        format!("erasing either direction at either end (0 to 3 messages in), then every sequence of {} further operations; every forgery under an empty or derived key is offered", depth),
        move |n, ctx| {
            let mut r = Radix(n);
            let (x, which) = (r.take(2) as u8, r.take(2));
            let pre = r.take(4);
            let mut d = Duo::new(UP)?;
            for k in 0..pre {
                let s = (k % 2) as u8;
                d.apply(Act::Send(s, 24), ctx)?;
                d.apply(Act::Next(1 - s), ctx)?;
            }
            d.apply(if which == 0 { Act::EraseLocal(x) } else { Act::EraseRemote(x) }, ctx)?;
            for _ in 0..depth {
                let a = [
                    Act::Send(0, 24),
                    Act::Send(1, 24),
                    Act::Next(x),
                    if which == 0 { Act::RekeyLocal(x) } else { Act::RekeyRemote(x) },
                    if which == 0 { Act::EraseLocal(x) } else { Act::EraseRemote(x) },
                    if which == 0 { Act::RekeyRemote(x) } else { Act::RekeyLocal(x) },
                ][r.take(6)];
                d.apply(a, ctx)?;
            }
            // Messages under keys an outsider can compute: the empty key and its rekeyed
            // descendants, for any number.
            if d.model[x as usize].inn() == which {
                let mut k = [0u8; 32];
                for _gen in 0..3 {
                    for m in 0..5u64 {
                        let mut c = rp::seal(&k, m, &[], b"forged");
                        if d.real[x as usize].recv_message(&mut c).is_ok() {
                            return Err(format!("an erased direction accepts a message under a publicly known key [history {:?}]", d.hist));
                        }
                    }
                    let mut cs = rn::Cs { k, n: 0 };
                    cs.rekey();
                    k = cs.k;
                }
            }
            Ok(())
        },
    ));
    Property { families: f, assumptions: assumptions() }
}
