//! C32: secrets are forgotten once they have served.
//!
//! What is observed is the memory of the object itself and every heap block allocated by the
//! library's calls and still live, also those that outlived earlier objects; and, in families of
//! their own, the static memory of the program and of the thread. A secret is "found" when any
//! eight consecutive bytes of it are there, at any offset.

use crate::alloc::{self, watching_for as lib};
use crate::duo::*;
use crate::engine::*;
use crate::refnoise as rn;
use crate::refprims as rp;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Keypair, PrivateKey};
use std::str::FromStr;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

type Secret = (&'static str, [u8; 32]);

fn bytes_of<T>(t: &T) -> Vec<u8> {
    let p = t as *const T as *const u8;
    (0..std::mem::size_of::<T>()).map(|i| unsafe { p.add(i).read_volatile() }).collect()
}

/// The two ends of a connection, whose memory is told apart.
const I: u8 = 1;
const R: u8 = 2;

/// The object's own memory, and the blocks its calls left allocated.
fn memory<T>(who: u8, t: &T) -> Vec<Vec<u8>> {
    let mut v = vec![bytes_of(t)];
    v.extend(alloc::watched(who));
    v.extend(alloc::watched(alloc::LASTING));
    v
}

fn is_in(mem: &[Vec<u8>], s: &[u8; 32]) -> bool {
    mem.iter().any(|m| {
        m.windows(8).any(|w| {
            (0..4).any(|c| {
                let part = &s[8 * c..8 * c + 8];
                part == w && part.iter().any(|b| *b != 0)
            })
        })
    })
}

fn forgotten<T>(who: u8, t: &T, secrets: &[Secret], when: &str, ctx: &mut Ctx) -> Res {
    let m = memory(who, t);
    for (name, s) in secrets {
        let mut clamped = *s;
        clamped[0] &= 248;
        clamped[31] = clamped[31] & 127 | 64;
        if is_in(&m, s) || is_in(&m, &clamped) {
            return Err(format!("{}, the object still holds {}", when, name));
        }
        ctx.count("secrets looked for and not there");
    }
    Ok(())
}

fn b32(b: &[u8]) -> [u8; 32] {
    core::array::from_fn(|i| b[i])
}

/// The static memory, and heap blocks the library keeps, hold none of these.
fn nowhere(secrets: &[Secret], when: &str, ctx: &mut Ctx) -> Res {
    let mut mem = alloc::statics();
    mem.extend(alloc::watched(alloc::LASTING));
    // First by two bytes, of which there are few.
    let mut first = vec![false; 1 << 16];
    let mut parts: Vec<(&'static str, [u8; 8])> = vec![];
    for (name, s) in secrets {
        let mut clamped = *s;
        clamped[0] &= 248;
        clamped[31] = clamped[31] & 127 | 64;
        for t in [*s, clamped] {
            for c in t.chunks(8) {
                if c.iter().any(|b| *b != 0) {
                    parts.push((name, core::array::from_fn(|i| c[i])));
                    first[(c[0] as usize) << 8 | c[1] as usize] = true;
                }
            }
        }
    }
    ctx.count("static memory searched");
    for m in &mem {
        for w in m.windows(8) {
            if first[(w[0] as usize) << 8 | w[1] as usize] {
                if let Some((name, _)) = parts.iter().find(|(_, p)| p[..] == *w) {
                    return Err(format!("{}, memory that belongs to no object still holds {}", when, name));
                }
            }
        }
    }
    Ok(())
}

/// The private key of this public key, found by trying every 32 bytes of the memory.
fn private_of(mem: &[Vec<u8>], public: &[u8; 32]) -> Option<[u8; 32]> {
    for m in mem {
        for w in m.windows(32) {
            let mut k = [0u8; 32];
            k.copy_from_slice(w);
            if rp::x25519_base(&k) == *public {
                return Some(k);
            }
        }
    }
    None
}

/// Everything the two ends derive: the intermediate secrets, and the transport keys.
fn derived(ei: &[u8; 32], er: &[u8; 32], sr: &[u8; 32]) -> (Vec<Secret>, [u8; 32], [u8; 32]) {
    let ee = rp::x25519(ei, &rp::x25519_base(er));
    let es = rp::x25519(ei, &rp::x25519_base(sr));
    let ck0 = rp::blake2s(&[rn::NAME]);
    let (ck1, k1) = rp::hkdf2(&ck0, &ee);
    let (ck2, k2) = rp::hkdf2(&ck1, &es);
    let (c1, c2) = rp::hkdf2(&ck2, &[]);
    (
        vec![
            ("the secret of the two ephemeral keys", ee),
            ("the secret of the initiator's ephemeral and the responder's static key", es),
            ("the first chaining key", ck1),
            ("the first handshake cipher key", k1),
            ("the last chaining key", ck2),
            ("the last handshake cipher key", k2),
        ],
        c1,
        c2,
    )
}

struct Both {
    i: Box<NoiseSession>,
    r: Box<NoiseSession>,
    si: [u8; 32],
    sr: [u8; 32],
    ei: Option<[u8; 32]>,
    er: Option<[u8; 32]>,
}

fn given(n: u64) -> Keypair {
    pair(n)
}

/// Two fresh ends; ephemeral keys are supplied when `eph` says so (bit 0 initiator, bit 1
/// responder), else drawn by the session.
fn both(prologue: &[u8], keys: u64, eph: usize) -> Both {
    let n = keys * 8 + 5001;
    // The thread's random generator allocates once; that is not the session's memory.
    let _ = Keypair::default();
    alloc::forget_new();
    let mut i = Box::new(lib(I, || NoiseSession::init_session(true, prologue, given(n))));
    let mut r = Box::new(lib(R, || NoiseSession::init_session(false, prologue, given(n + 1))));
    let (mut ei, mut er) = (None, None);
    if eph & 1 != 0 {
        lib(I, || i.set_ephemeral_keypair(given(n + 2)));
        ei = Some(secret(n + 2));
    }
    if eph & 2 != 0 {
        lib(R, || r.set_ephemeral_keypair(given(n + 3)));
        er = Some(secret(n + 3));
    }
    Both { i, r, si: secret(n), sr: secret(n + 1), ei, er }
}

struct Unwatch;
impl Drop for Unwatch {
    fn drop(&mut self) {
        // The objects are gone: what they left is the library's for good.
        alloc::keep();
    }
}

fn public_in(m: &[u8]) -> [u8; 32] {
    let mut p = [0u8; 32];
    p.copy_from_slice(&m[..32]);
    p
}

/// The ends complete a handshake (with this much nonsense in between); afterwards neither holds
/// anything the handshake used.
fn finish(b: &mut Both, na: usize, nb: usize, noise: usize, ctx: &mut Ctx) -> Result<([u8; 32], [u8; 32]), String> {
    let e = |w: &str, x: noiseexplorer_nx::error::NoiseError| format!("{}: {}", w, x);
    let nonsense = |s: &mut NoiseSession, reply: bool| {
        let who = if reply { I } else { R };
        if noise & 1 != 0 {
            let _ = lib(who, || s.send_message(&mut [0u8; 15]));
            let _ = lib(who, || s.recv_message(&mut [0u8; 15]));
        }
        if noise & 2 != 0 {
            if reply {
                let _ = lib(who, || s.recv_message(&mut [7u8; 80]));
                let _ = lib(who, || s.send_message(&mut [7u8; 200]));
            } else {
                let _ = lib(who, || s.send_message(&mut [7u8; 70_000]));
                let _ = lib(who, || s.recv_message(&mut [7u8; 31]));
            }
        }
    };
    let mut a = pattern(1, na);
    lib(I, || b.i.send_message(&mut a)).map_err(|x| e("the first message cannot be sent", x))?;
    nonsense(&mut b.i, true);
    let (mi, mr) = (memory(I, &*b.i), memory(R, &*b.r));
    if b.ei.is_none() {
        b.ei = private_of(&mi, &public_in(&a));
    }
    let ei = match b.ei {
        Some(k) => k,
        None => {
            ctx.count("ephemeral key not found in memory before completion");
            [0; 32]
        }
    };
    if is_in(&mi, &b.si) && is_in(&mr, &b.sr) && is_in(&mi, &ei) {
        ctx.count("secrets seen while they are needed");
    }
    lib(R, || b.r.recv_message(&mut a)).map_err(|x| e("the first message is refused", x))?;
    nonsense(&mut b.r, false);
    let mut m = pattern(2, nb);
    lib(R, || b.r.send_message(&mut m)).map_err(|x| e("the reply cannot be sent", x))?;
    let er_public = public_in(&m);
    lib(I, || b.i.recv_message(&mut m)).map_err(|x| e("the reply is refused", x))?;
    if !b.i.is_transport() || !b.r.is_transport() {
        return Err("the handshake does not complete".into());
    }
    // The responder's own ephemeral key exists only during its sending call. If it was supplied
    // everything can be derived; if not, from the initiator's side only.
    let mut secrets: Vec<Secret> = vec![("the initiator's static private key", b.si), ("the responder's static private key", b.sr)];
    let (mut c1, mut c2) = ([0; 32], [0; 32]);
    if ei != [0; 32] {
        secrets.push(("the initiator's ephemeral private key", ei));
        let ee = rp::x25519(&ei, &er_public);
        let es = rp::x25519(&ei, &rp::x25519_base(&b.sr));
        let ck0 = rp::blake2s(&[rn::NAME]);
        let (ck1, k1) = rp::hkdf2(&ck0, &ee);
        let (ck2, k2) = rp::hkdf2(&ck1, &es);
        let (x, y) = rp::hkdf2(&ck2, &[]);
        c1 = x;
        c2 = y;
        secrets.extend([
            ("the secret of the two ephemeral keys", ee),
            ("the secret of the initiator's ephemeral and the responder's static key", es),
            ("the first chaining key", ck1),
            ("the first handshake cipher key", k1),
            ("the last chaining key", ck2),
            ("the last handshake cipher key", k2),
        ]);
    }
    if let Some(k) = b.er {
        secrets.push(("the responder's ephemeral private key", k));
    } else if let Some(k) = private_of(&memory(R, &*b.r), &er_public) {
        return Err(format!("after completion, the responder still holds its ephemeral private key {:02x?}..", &k[..4]));
    }
    forgotten(I, &*b.i, &secrets, "after the initiator's completion", ctx)?;
    forgotten(R, &*b.r, &secrets, "after the responder's completion", ctx)?;
    if is_in(&memory(I, &*b.i), &c1) && is_in(&memory(R, &*b.r), &c2) {
        ctx.count("transport keys seen while they are needed");
    }
    Ok((c1, c2))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Send(usize),
    /// Refused: a wrong message to this end.
    Junk(usize),
    /// Refused for its size.
    Short(usize),
    Rekey(usize, usize),
    Clear(usize, usize),
}

const OPS: [Op; 14] = [
    Op::Send(0),
    Op::Send(1),
    Op::Junk(0),
    Op::Junk(1),
    Op::Short(0),
    Op::Short(1),
    Op::Rekey(0, 0),
    Op::Rekey(0, 1),
    Op::Rekey(1, 0),
    Op::Rekey(1, 1),
    Op::Clear(0, 0),
    Op::Clear(0, 1),
    Op::Clear(1, 0),
    Op::Clear(1, 1),
];

/// What each end should hold: the key of each direction, and what it held before.
struct Keys {
    now: [[Option<[u8; 32]>; 2]; 2],
    past: [Vec<Secret>; 2],
}

fn next_key(k: &[u8; 32]) -> [u8; 32] {
    let mut c = rn::Cs { k: *k, n: 0 };
    c.rekey();
    c.k
}

fn step(b: &mut Both, k: &mut Keys, op: Op, n: u64) {
    match op {
        Op::Send(x) => {
            let mut m = pattern(n + 3, 40);
            let (from, to, a, z) = if x == 0 { (&mut b.i, &mut b.r, I, R) } else { (&mut b.r, &mut b.i, R, I) };
            if lib(a, || from.send_message(&mut m)).is_ok() {
                let _ = lib(z, || to.recv_message(&mut m));
            }
        }
        Op::Junk(x) => {
            let mut m = pattern(n + 4, 48);
            let (s, who) = if x == 0 { (&mut b.i, I) } else { (&mut b.r, R) };
            let _ = lib(who, || s.recv_message(&mut m));
        }
        Op::Short(x) => {
            let (s, who) = if x == 0 { (&mut b.i, I) } else { (&mut b.r, R) };
            let _ = lib(who, || s.send_message(&mut [1u8; 7]));
            let _ = lib(who, || s.recv_message(&mut [1u8; 7]));
        }
        Op::Rekey(x, d) => {
            let (s, who) = if x == 0 { (&mut b.i, I) } else { (&mut b.r, R) };
            if d == 0 {
                lib(who, || s.rekey_local_cipherstate())
            } else {
                lib(who, || s.rekey_remote_cipherstate())
            }
            if let Some(old) = k.now[x][d] {
                k.past[x].push(("a key that was replaced", old));
                k.now[x][d] = Some(next_key(&old));
            }
        }
        Op::Clear(x, d) => {
            let (s, who) = if x == 0 { (&mut b.i, I) } else { (&mut b.r, R) };
            if d == 0 {
                lib(who, || s.clear_local_cipherstate())
            } else {
                lib(who, || s.clear_remote_cipherstate())
            }
            if let Some(old) = k.now[x][d].take() {
                k.past[x].push(("a key that was erased", old));
            }
        }
    }
}

fn history(ops: &[Op], keys: u64, ctx: &mut Ctx) -> Res {
    let _u = Unwatch;
    let mut b = both(b"", keys, 3);
    let (_, c1, c2) = derived(&b.ei.unwrap(), &b.er.unwrap(), &b.sr);
    let got = finish(&mut b, 32, 96, 0, ctx)?;
    if got != (c1, c2) {
        return Err("harness: the derived keys differ".into());
    }
    let mut k = Keys { now: [[Some(c1), Some(c2)]; 2], past: [vec![], vec![]] };
    let mut at = vec![];
    for (n, op) in ops.iter().enumerate() {
        ctx.note(|| format!("{:?}", op));
        step(&mut b, &mut k, *op, n as u64);
        at.push(OPS.iter().position(|o| o == op).unwrap() as u64);
        ctx.visit(h(&at));
        forgotten(I, &*b.i, &k.past[0], &format!("after {:?}, at the initiator", op), ctx)?;
        forgotten(R, &*b.r, &k.past[1], &format!("after {:?}, at the responder", op), ctx)?;
    }
    Ok(())
}

fn ops_of(mut i: u64, depth: usize) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..depth {
        v.push(OPS[(i % OPS.len() as u64) as usize]);
        i /= OPS.len() as u64;
    }
    v
}

fn encryptors(n: u64, ctx: &mut Ctx) -> Res {
    let _u = Unwatch;
    let _ = Keypair::default();
    let own = n % 2 == 0;
    let noise = n / 2 % 8;
    alloc::forget_new();
    let mut o = Box::new(lib(I, || ConnectionEncryptor::new_outbound()));
    let mut i = Box::new(lib(R, || ConnectionEncryptor::new_inbound(if own { Some(given(7000 + n)) } else { None })));
    let e = |w: &str, x: stratumv2::error::Error| format!("{}: {}", w, x);
    if noise & 1 != 0 {
        let _ = lib(I, || o.recv_handshake(&mut [0u8; 20]));
        let _ = lib(R, || i.init_handshake());
    }
    let mut a = lib(I, || o.init_handshake()).map_err(|x| e("the handshake cannot begin", x))?;
    if noise & 2 != 0 {
        let _ = lib(I, || o.init_handshake());
        let _ = lib(I, || o.recv_handshake(&mut [0u8; 50]));
    }
    if noise & 4 != 0 {
        let _ = lib(R, || i.recv_handshake(&mut [0u8; 12]));
    }
    let mo = memory(I, &*o);
    let mi = memory(R, &*i);
    let eo = private_of(&mo, &public_in(&a));
    let mut m = lib(R, || i.recv_handshake(&mut a)).map_err(|x| e("the first message is refused", x))?;
    let er = public_in(&m);
    // The outbound end returns an error here, it has nothing to answer with; it is complete.
    let _ = lib(I, || o.recv_handshake(&mut m));
    if !o.is_handshake_complete() || !i.is_handshake_complete() {
        return Err("the encryptors do not complete".into());
    }
    let remote = o.get_remote_pubkey().ok_or("no remote key")?.as_bytes();
    ctx.visit(h(&[32, n]));
    let mut secrets: Vec<Secret> = vec![];
    if own {
        secrets.push(("the inbound end's static private key", secret(7000 + n)));
    } else if let Some(k) = private_of(&mi, &remote) {
        ctx.count("generated static key seen while needed");
        secrets.push(("the inbound end's static private key", k));
    }
    if let Some(k) = eo {
        ctx.count("generated ephemeral key seen while needed");
        secrets.push(("the outbound end's ephemeral private key", k));
        secrets.push(("the secret of the two ephemeral keys", rp::x25519(&k, &er)));
        secrets.push(("the secret of the ephemeral and the static key", rp::x25519(&k, &remote)));
    }
    drop(a);
    drop(m);
    forgotten(I, &*o, &secrets, "after completion, at the outbound end", ctx)?;
    forgotten(R, &*i, &secrets, "after completion, at the inbound end", ctx)?;
    for public in [er, remote] {
        for (w, mem) in [("outbound", memory(I, &*o)), ("inbound", memory(R, &*i))] {
            if private_of(&mem, &public).is_some() {
                return Err(format!("after completion, the {} end still holds a private key of the handshake", w));
            }
        }
    }
    Ok(())
}

fn cleared_pair(n: u64, ctx: &mut Ctx) -> Res {
    let _u = Unwatch;
    let _ = Keypair::default();
    alloc::forget_new();
    let s = secret(9000 + n);
    let hex: String = s.iter().map(|b| format!("{:02x}", b)).collect();
    let private = match n % 3 {
        0 => PrivateKey::from_bytes(s),
        _ => PrivateKey::from_str(&hex).map_err(|e| format!("a private key is refused: {}", e))?,
    };
    let mut k = Box::new(match n % 4 {
        3 => lib(I, Keypair::default),
        _ => lib(I, || Keypair::from_private_key(private)).map_err(|e| format!("a private key is refused: {}", e))?,
    });
    drop(hex);
    let s = match n % 4 {
        3 => match private_of(&memory(I, &*k), &k.get_public_key().as_bytes()) {
            Some(s) => s,
            None => return Ok(()),
        },
        _ => s,
    };
    if is_in(&memory(I, &*k), &s) {
        ctx.count("secrets seen while they are needed");
    }
    lib(I, || k.clear());
    ctx.visit(h(&[33, n]));
    forgotten(I, &*k, &[("its private key", s)], "after a key pair is erased", ctx)?;
    if n % 5 == 0 {
        lib(I, || k.clear());
        forgotten(I, &*k, &[("its private key", s)], "after a key pair is erased twice", ctx)?;
    }
    Ok(())
}

pub fn c32(tier: Tier) -> Property {
    let mut f = vec![];
    const A: [usize; 5] = [32, 33, 64, 1024, 65535];
    const B: [usize; 6] = [96, 97, 128, 1024, 2049, 65535];
    let pro: [&'static [u8]; 3] = [b"", b"mc", &[1u8; 100]];
    let keys = tier.pick(4usize, 40);
    f.push(Family::new(
        "after the handshake",
        (A.len() * B.len() * 3 * 4 * keys) as u64,
        "message sizes x prologues x refused calls in between x key sets, supplied ephemeral keys, both ends",
        move |n, ctx| {
            let _u = Unwatch;
            let mut x = Radix(n);
            let (na, nb, p, noise, k) = (A[x.take(5)], B[x.take(6)], pro[x.take(3)], x.take(4), x.take(keys));
            let mut b = both(p, k as u64, 3);
            finish(&mut b, na, nb, noise, ctx)?;
            ctx.visit(h(&[1, n]));
            Ok(())
        },
    ));
    f.push(Family::new(
        "after the handshake, generated ephemeral keys",
        tier.pick(48, 600),
        "which ends draw their own x refused calls in between x key sets",
        move |n, ctx| {
            let _u = Unwatch;
            let mut x = Radix(n);
            let (eph, noise, k) = (x.take(3), x.take(4), x.take(50));
            let mut b = both(b"", 1000 + k as u64, eph);
            finish(&mut b, 40, 120, noise, ctx)?;
            ctx.visit(h(&[2, n]));
            Ok(())
        },
    ));
    let top = tier.pick(4usize, 5);
    for depth in 1..=top {
        f.push(Family::new(
            format!("histories of length {}", depth),
            (OPS.len() as u64).pow(depth as u32),
            "all sequences of sending, refused messages and sizes, rekeying and erasing at either end; memory examined after every step",
            move |n, ctx| history(&ops_of(n, depth), 1, ctx),
        ));
    }
    f.push(Family::new(
        "after much traffic",
        (OPS.len() * OPS.len()) as u64,
        "two operations with 300 messages between them",
        |n, ctx| {
            let mut v = ops_of(n, 1);
            for j in 0..300 {
                v.push(Op::Send(j % 2));
            }
            v.extend(ops_of(n / OPS.len() as u64, 1));
            history(&v, 2, ctx)
        },
    ));
    // At every message count.
    let counts: Vec<usize> = (0..tier.pick(1100usize, 5000))
        .chain((11..tier.pick(17u32, 20)).flat_map(|b| (0..5usize).map(move |d| (1usize << b) - 2 + d)))
        .collect();
    let nc = counts.len();
    f.push(
        Family::new(
            "after every number of messages",
            (nc * 8 * 3) as u64,
            "each rekey and each erasure after so many messages (one way, the other, alternating), and again one message later; memory examined after both",
            move |n, ctx| {
                let mut x = Radix(n);
                let op = OPS[6 + x.take(8)];
                let way = x.take(3);
                let count = counts[x.take(nc)];
                let _u = Unwatch;
                let mut b = both(b"", 5, 3);
                let (c1, c2) = finish(&mut b, 32, 96, 0, ctx)?;
                let mut k = Keys { now: [[Some(c1), Some(c2)]; 2], past: [vec![], vec![]] };
                let mut m = [5u8; 40];
                for j in 0..count {
                    let d = if way == 2 { j % 2 } else { way };
                    let (from, to, a, z) = if d == 0 { (&mut b.i, &mut b.r, I, R) } else { (&mut b.r, &mut b.i, R, I) };
                    lib(a, || from.send_message(&mut m)).map_err(|e| format!("message {}: {}", j, e))?;
                    lib(z, || to.recv_message(&mut m)).map_err(|e| format!("message {}: {}", j, e))?;
                }
                ctx.visit(h(&[34, n]));
                for again in 0..2u64 {
                    step(&mut b, &mut k, op, 1);
                    forgotten(I, &*b.i, &k.past[0], &format!("{:?} after {} messages, at the initiator", op, count), ctx)?;
                    forgotten(R, &*b.r, &k.past[1], &format!("{:?} after {} messages, at the responder", op, count), ctx)?;
                    step(&mut b, &mut k, Op::Send(way % 2), again);
                }
                Ok(())
            },
        )
        .hang(200),
    );
    // What the library keeps outside any object.
    let kinds = OPS.len() + 4;
    f.push(
        Family::new(
            "static memory",
            (kinds * tier.pick(8, 40)) as u64,
            "after a handshake (sessions or encryptors, ephemeral keys supplied or not), after each operation on them and after the ends are gone: the program's static memory and the thread's hold none of the secrets",
            move |n, ctx| {
                let mut x = Radix(n);
                let (what, k) = (x.take(kinds), 3000 + x.take(1000) as u64);
                let mut secrets: Vec<Secret> = vec![];
                {
                    let _u = Unwatch;
                    let mut b = both(b"", k, 3);
                    let (mut s, c1, c2) = derived(&b.ei.unwrap(), &b.er.unwrap(), &b.sr);
                    finish(&mut b, 32, 96, what % 4, ctx)?;
                    s.extend([("the initiator's static private key", b.si), ("the responder's static private key", b.sr)]);
                    s.extend([("the initiator's ephemeral private key", b.ei.unwrap()), ("the responder's ephemeral private key", b.er.unwrap())]);
                    nowhere(&s, "after a handshake", ctx)?;
                    secrets.extend(s);
                    let mut keys = Keys { now: [[Some(c1), Some(c2)]; 2], past: [vec![], vec![]] };
                    step(&mut b, &mut keys, Op::Send(0), 1);
                    step(&mut b, &mut keys, Op::Send(1), 2);
                    if what < OPS.len() {
                        step(&mut b, &mut keys, OPS[what], 3);
                        step(&mut b, &mut keys, Op::Send(0), 4);
                        secrets.extend(keys.past.iter().flatten().cloned());
                        nowhere(&secrets, &format!("after {:?}", OPS[what]), ctx)?;
                    }
                    secrets.extend([("a transport key", c1), ("a transport key", c2)]);
                    secrets.extend(keys.now.iter().flatten().flatten().map(|k| ("a transport key", *k)));
                }
                ctx.visit(h(&[35, n]));
                nowhere(&secrets, "after both ends are gone", ctx)
            },
        )
        .serial(),
    );
    f.push(
        Family::new("static memory, encryptors and pairs", tier.pick(64, 400), "the same for connection encryptors and for erased key pairs", move |n, ctx| {
            let mut secrets: Vec<Secret> = vec![];
            {
                let _u = Unwatch;
                alloc::forget_new();
                if n % 2 == 0 {
                    let mut o = Box::new(lib(I, || ConnectionEncryptor::new_outbound()));
                    let mut i = Box::new(lib(R, || ConnectionEncryptor::new_inbound(if n % 4 == 0 { Some(given(6000 + n)) } else { None })));
                    let e = |x: stratumv2::error::Error| format!("the encryptors do not complete: {}", x);
                    let mut a = lib(I, || o.init_handshake()).map_err(e)?;
                    let eo = private_of(&memory(I, &*o), &public_in(&a));
                    let mut m = lib(R, || i.recv_handshake(&mut a)).map_err(e)?;
                    let er = public_in(&m);
                    let _ = lib(I, || o.recv_handshake(&mut m));
                    let remote = o.get_remote_pubkey().ok_or("no remote key")?.as_bytes();
                    if n % 4 == 0 {
                        secrets.push(("the inbound end's static private key", secret(6000 + n)));
                    }
                    if let Some(k) = eo {
                        secrets.push(("the outbound end's ephemeral private key", k));
                        secrets.push(("the secret of the two ephemeral keys", rp::x25519(&k, &er)));
                        secrets.push(("the secret of the ephemeral and the static key", rp::x25519(&k, &remote)));
                    }
                    for public in [er, remote] {
                        for w in alloc::statics().last().map(|t| t.windows(32)).into_iter().flatten() {
                            if w.iter().filter(|b| **b == 0).count() < 8 && rp::x25519_base(&b32(w)) == public {
                                return Err("after a handshake, the thread's static memory holds a private key of it".into());
                            }
                        }
                    }
                } else {
                    let s = secret(6000 + n);
                    let mut k = lib(I, || Keypair::from_private_key(PrivateKey::from_bytes(s))).map_err(|e| e.to_string())?;
                    if n % 4 == 1 {
                        lib(I, || k.clear());
                    }
                    drop(k);
                    secrets.push(("a private key", s));
                }
            }
            ctx.visit(h(&[36, n]));
            nowhere(&secrets, "after everything is gone", ctx)
        })
        .serial(),
    );
    f.push(Family::new("connection encryptors", tier.pick(32, 400), "static key supplied or generated x refused calls in between", encryptors));
    f.push(Family::new("erased key pairs", tier.pick(400, 20_000), "pairs from bytes, from text, generated; erased once and twice", cleared_pair));
    Property {
        families: f,
        assumptions: vec![
            "Observed is the memory of the session, encryptor or key pair itself and of heap blocks its calls left allocated, not registers or abandoned stack frames.".into(),
            "Keys a user sets again after completion, and a session whose handshake never completed, are not judged.".into(),
        ],
    }
}
