//! Two real Noise sessions and a symbolic model of the protocol, driven in lockstep.
//!
//! The model knows nothing of cryptography: a message is identified by who made it, in which
//! connection, direction, key generation and number. It says for every call whether the call
//! must succeed, must be refused, or (after a forged handshake reply) may do either.

use crate::engine::*;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Keypair, PrivateKey};
use std::rc::Rc;

pub const MAC: usize = 16;
pub const MIN_A: usize = 32;
pub const MIN_B: usize = 96;
pub const MAX: usize = 65535;

/// From here on `secret` counts through keys with a pattern: one bit set, one bit clear, one byte
/// all along, a run of zero or full bytes at either end.
pub const SPECIAL: u64 = 0x5EC0 << 32;
pub const SPECIALS: u64 = 256 + 256 + 255 + 4 * 31;

fn special_secret(k: usize) -> [u8; 32] {
    let mut o = [0u8; 32];
    match k {
        0..=255 => o[k / 8] |= 1 << (k % 8),
        256..=511 => {
            o = [0xff; 32];
            o[(k - 256) / 8] ^= 1 << (k % 8);
        }
        512..=766 => o = [(k - 511) as u8; 32],
        _ => {
            let (n, how) = ((k - 767) % 31 + 1, (k - 767) / 31);
            o = secret(77);
            let b = if how % 2 == 0 { 0 } else { 0xff };
            if how < 2 {
                o[..n].fill(b)
            } else {
                o[32 - n..].fill(b)
            }
        }
    }
    o
}

/// Deterministic private keys.
pub fn secret(n: u64) -> [u8; 32] {
    if n >= SPECIAL && n < SPECIAL + SPECIALS {
        return special_secret((n - SPECIAL) as usize);
    }
    let mut o = [0u8; 32];
    for (i, c) in o.chunks_mut(8).enumerate() {
        let mut x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (i as u64 + 1).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x ^= x >> 32;
        c.copy_from_slice(&x.to_le_bytes());
    }
    o
}

pub fn pair(n: u64) -> Keypair {
    match Keypair::from_private_key(PrivateKey::from_bytes(secret(n))) {
        Ok(k) => k,
        Err(_) => Keypair::default(),
    }
}

/// A session with fixed keys.
pub fn session(initiator: bool, prologue: &[u8], s: u64, e: u64) -> NoiseSession {
    let mut x = NoiseSession::init_session(initiator, prologue, pair(s));
    x.set_ephemeral_keypair(pair(e));
    x
}

pub fn can_fork() -> bool {
    !std::mem::needs_drop::<NoiseSession>()
}

/// A bitwise copy; only valid while the type owns nothing (see `can_fork`).
pub fn copy_session(s: &NoiseSession) -> NoiseSession {
    assert!(can_fork());
    unsafe { std::ptr::read(s) }
}

pub fn pattern(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(n);
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Alt {
    Exact,
    FlipFirst,
    FlipMid,
    FlipLast,
    /// The bit at this position, counted from the start.
    Flip(u32),
    /// One byte shorter, cut at the end.
    Cut1,
    /// One byte shorter, cut at the start.
    CutFront,
    CutTo(u32),
    Ext1,
    ExtFront,
    ExtBy(u32),
    /// The MAC moved to the front (same bytes, other order).
    Rotate,
    /// The MAC of another recorded message of the same length.
    MacOf(u8),
    ZeroMac,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Src {
    Log(u8),
    /// Pseudo-random bytes of this length.
    Noise(u32),
    Zeros(u32),
    /// A message of another connection between the same two parties.
    Foreign(u8),
}

/// The messages of another connection between the same static keys: A, B, and two transport
/// messages in each direction.
pub fn foreign() -> &'static [Vec<u8>] {
    static F: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut i = session(true, b"mc", 1, 13);
        let mut r = session(false, b"mc", 2, 14);
        let mut out = vec![];
        let mut a = pattern(91, HS_LEN as usize);
        let _ = i.send_message(&mut a);
        out.push(a.clone());
        let _ = r.recv_message(&mut a);
        let mut b = pattern(92, HS_LEN as usize);
        let _ = r.send_message(&mut b);
        out.push(b.clone());
        let _ = i.recv_message(&mut b);
        for n in 0..2 {
            for (k, s) in [&mut i, &mut r].into_iter().enumerate() {
                let mut t = pattern(93 + n * 2 + k as u64, 40);
                let _ = s.send_message(&mut t);
                out.push(t);
            }
        }
        out
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Send(u8, u32),
    Recv(u8, Src, Alt),
    /// Deliver the oldest message of the peer not yet accepted.
    Next(u8),
    RekeyLocal(u8),
    RekeyRemote(u8),
    EraseLocal(u8),
    EraseRemote(u8),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    A,
    B { got: Option<usize> },
    T { conn: usize, dir: u8, epoch: u32, n: u64 },
}

#[derive(Debug)]
pub struct Rec {
    pub from: u8,
    pub kind: Kind,
    pub plain: Vec<u8>,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Phase {
    Fresh,
    SentA(usize),
    GotA(Option<usize>),
    Up(usize),
    /// An initiator that was offered a forged reply.
    Broken(usize),
    /// A responder that was offered a degenerate first message.
    Unsure,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Dir {
    pub epoch: Option<u32>,
    pub n: u64,
}

#[derive(Clone)]
pub struct Model {
    pub initiator: bool,
    pub phase: Phase,
    /// [initiator to responder, responder to initiator]
    pub dirs: [Dir; 2],
    /// Transport messages of the peer accepted so far.
    pub seen: usize,
    pub count: u128,
}

impl Model {
    fn new(initiator: bool) -> Model {
        Model {
            initiator,
            phase: Phase::Fresh,
            dirs: [Dir { epoch: Some(0), n: 0 }; 2],
            seen: 0,
            count: 0,
        }
    }
    pub fn out(&self) -> usize {
        if self.initiator {
            0
        } else {
            1
        }
    }
    pub fn inn(&self) -> usize {
        1 - self.out()
    }
    fn up(&self) -> bool {
        matches!(self.phase, Phase::Up(_))
    }
}

#[derive(Clone, Copy, Default)]
pub struct Watch {
    /// Handshake hash and remote key follow completion and agree.
    pub facts: bool,
    /// A refusal leaves the message count alone and the plaintext out of the buffer.
    pub harmless: bool,
}

#[derive(Clone, Copy)]
pub struct Setup {
    pub roles: [bool; 2],
    pub watch: Watch,
    /// Start after a genuine handshake.
    pub up: bool,
}

pub struct Duo {
    pub setup: Setup,
    pub real: [NoiseSession; 2],
    pub model: [Model; 2],
    pub log: Vec<Rc<Rec>>,
    pub hist: Vec<Act>,
}

pub const HS_LEN: u32 = 128;

fn expect_err<T>(what: &str) -> Result<T, String> {
    Err(what.to_string())
}

impl Duo {
    pub fn new(setup: Setup) -> Result<Duo, String> {
        let real = [
            session(setup.roles[0], b"mc", 1, 3),
            session(setup.roles[1], b"mc", 2, 4),
        ];
        let mut d = Duo {
            setup,
            real,
            model: [Model::new(setup.roles[0]), Model::new(setup.roles[1])],
            log: vec![],
            hist: vec![],
        };
        if setup.up {
            let mut c = Ctx::default();
            d.apply(Act::Send(0, HS_LEN), &mut c)?;
            d.apply(Act::Recv(1, Src::Log(0), Alt::Exact), &mut c)?;
            d.apply(Act::Send(1, HS_LEN), &mut c)?;
            d.apply(Act::Recv(0, Src::Log(1), Alt::Exact), &mut c)?;
            d.hist.clear();
            if !(d.real[0].is_transport() && d.real[1].is_transport()) {
                return expect_err("a genuine handshake does not complete");
            }
        }
        Ok(d)
    }

    /// An independent copy of everything.
    pub fn fork(&self) -> Result<Duo, String> {
        if can_fork() {
            return Ok(Duo {
                setup: self.setup,
                real: [copy_session(&self.real[0]), copy_session(&self.real[1])],
                model: self.model.clone(),
                log: self.log.clone(),
                hist: self.hist.clone(),
            });
        }
        let mut d = Duo::new(self.setup)?;
        let mut c = Ctx::default();
        for a in &self.hist {
            d.apply(*a, &mut c)?;
        }
        Ok(d)
    }

    pub fn state(&self) -> u64 {
        let mut p = vec![self.setup.roles[0] as u64, self.setup.roles[1] as u64];
        for m in &self.model {
            let (a, b) = match m.phase {
                Phase::Fresh => (0, 0),
                Phase::SentA(i) => (1, i as u64),
                Phase::GotA(i) => (2, i.map_or(99, |x| x as u64)),
                Phase::Up(i) => (3, i as u64),
                Phase::Broken(i) => (4, i as u64),
                Phase::Unsure => (5, 0),
            };
            p.push(a << 8 | b);
            for d in &m.dirs {
                p.push(d.epoch.map_or(0, |e| e as u64 + 1) << 32 | d.n);
            }
        }
        p.push(self.log.len() as u64);
        h(&p)
    }

    fn alter(&self, base: Vec<u8>, alt: Alt) -> Vec<u8> {
        let mut b = base;
        match alt {
            Alt::Exact => {}
            Alt::FlipFirst => {
                if let Some(x) = b.first_mut() {
                    *x ^= 1
                }
            }
            Alt::FlipMid => {
                let n = b.len() / 2;
                if n < b.len() {
                    b[n] ^= 0x10
                }
            }
            Alt::FlipLast => {
                if let Some(x) = b.last_mut() {
                    *x ^= 0x80
                }
            }
            Alt::Flip(i) => {
                let i = i as usize;
                if i / 8 < b.len() {
                    b[i / 8] ^= 1 << (i % 8)
                }
            }
            Alt::Cut1 => {
                b.pop();
            }
            Alt::CutFront => {
                if !b.is_empty() {
                    b.remove(0);
                }
            }
            Alt::CutTo(n) => b.truncate(n as usize),
            Alt::Ext1 => b.push(0),
            Alt::ExtFront => b.insert(0, 0),
            Alt::ExtBy(n) => b.extend(std::iter::repeat(0).take(n as usize)),
            Alt::Rotate => {
                let n = MAC.min(b.len());
                b.rotate_right(n)
            }
            Alt::MacOf(i) => {
                if let Some(o) = self.log.get(i as usize) {
                    if o.bytes.len() >= MAC && b.len() >= MAC {
                        let n = b.len();
                        b[n - MAC..].copy_from_slice(&o.bytes[o.bytes.len() - MAC..]);
                    }
                }
            }
            Alt::ZeroMac => {
                let n = b.len();
                for x in b[n - MAC.min(n)..].iter_mut() {
                    *x = 0
                }
            }
        }
        b
    }

    /// Applies the action to the real sessions and compares with the model.
    pub fn apply(&mut self, act: Act, ctx: &mut Ctx) -> Result<bool, String> {
        self.hist.push(act);
        let r = match act {
            Act::Send(x, n) => self.send(x as usize, n as usize),
            Act::Recv(x, src, alt) => {
                let base = match src {
                    Src::Log(i) => match self.log.get(i as usize) {
                        Some(r) => r.bytes.clone(),
                        None => return Ok(false),
                    },
                    Src::Noise(n) => pattern(0xabcdef ^ n as u64, n as usize),
                    Src::Zeros(n) => vec![0; n as usize],
                    Src::Foreign(i) => match foreign().get(i as usize) {
                        Some(b) => b.clone(),
                        None => return Ok(false),
                    },
                };
                let b = self.alter(base, alt);
                let near = match src {
                    Src::Log(i) => Some(i as usize),
                    _ => None,
                };
                self.recv(x as usize, b, near)
            }
            Act::Next(x) => match self.next_for(x as usize) {
                Some(i) => {
                    let b = self.log[i].bytes.clone();
                    self.recv(x as usize, b, Some(i))
                }
                None => Ok(false),
            },
            Act::RekeyLocal(x) => {
                self.real[x as usize].rekey_local_cipherstate();
                self.rekey(x as usize, 0);
                Ok(true)
            }
            Act::RekeyRemote(x) => {
                self.real[x as usize].rekey_remote_cipherstate();
                self.rekey(x as usize, 1);
                Ok(true)
            }
            Act::EraseLocal(x) => {
                self.real[x as usize].clear_local_cipherstate();
                self.erase(x as usize, 0);
                Ok(true)
            }
            Act::EraseRemote(x) => {
                self.real[x as usize].clear_remote_cipherstate();
                self.erase(x as usize, 1);
                Ok(true)
            }
        };
        let ok = match r {
            Ok(ok) => ok,
            Err(e) => return Err(format!("{} [history {:?}]", e, self.hist)),
        };
        ctx.note(|| format!("{:?} {}", act, if ok { "ok" } else { "refused" }));
        if let Err(e) = self.observe() {
            return Err(format!("{} [history {:?}]", e, self.hist));
        }
        ctx.visit(self.state());
        Ok(ok)
    }

    fn rekey(&mut self, x: usize, d: usize) {
        if let Some(e) = &mut self.model[x].dirs[d].epoch {
            if matches!(self.model[x].phase, Phase::Up(_)) {
                *e += 1;
            }
        }
    }
    fn erase(&mut self, x: usize, d: usize) {
        if matches!(self.model[x].phase, Phase::Up(_)) {
            self.model[x].dirs[d].epoch = None;
        }
    }

    /// The oldest transport message of the peer that x has not accepted.
    pub fn next_for(&self, x: usize) -> Option<usize> {
        self.log
            .iter()
            .enumerate()
            .filter(|(_, r)| r.from as usize == 1 - x && matches!(r.kind, Kind::T { .. }))
            .nth(self.model[x].seen)
            .map(|(i, _)| i)
    }

    fn send(&mut self, x: usize, n: usize) -> Result<bool, String> {
        let mut buf = pattern(7 + self.log.len() as u64 * 31 + n as u64, n);
        let plain = buf.clone();
        let m = &self.model[x];
        let before = self.real[x].get_message_count();
        let size_ok = |min: usize| n >= min && n <= MAX;
        // None: refuse
        let kind = match (m.initiator, m.phase) {
            (true, Phase::Fresh) if size_ok(MIN_A) => Some(Kind::A),
            (false, Phase::GotA(got)) if size_ok(MIN_B) => Some(Kind::B { got }),
            (_, Phase::Up(conn)) if size_ok(MAC) => {
                let d = m.dirs[m.out()];
                d.epoch.map(|epoch| Kind::T {
                    conn,
                    dir: m.out() as u8,
                    epoch,
                    n: d.n,
                })
            }
            _ => None,
        };
        let ok = self.real[x].send_message(&mut buf).is_ok();
        match (&kind, ok) {
            (Some(_), false) => {
                return Err(format!(
                    "session {} ({}) refuses to send {} bytes although it is its turn",
                    x,
                    role(m.initiator),
                    n
                ))
            }
            (None, true) => {
                return Err(format!(
                    "session {} ({}) in state {:?} sends a {}-byte message it must not send",
                    x,
                    role(m.initiator),
                    m.phase,
                    n
                ))
            }
            (None, false) => {
                if self.setup.watch.harmless && self.real[x].get_message_count() != before {
                    return Err("a refused send changes the message count".into());
                }
                return Ok(false);
            }
            _ => {}
        }
        let kind = kind.unwrap();
        let id = self.log.len();
        let m = &mut self.model[x];
        m.count += 1;
        match &kind {
            Kind::A => m.phase = Phase::SentA(id),
            Kind::B { .. } => m.phase = Phase::Up(id),
            Kind::T { dir, .. } => m.dirs[*dir as usize].n += 1,
        }
        self.log.push(Rc::new(Rec {
            from: x as u8,
            kind,
            plain,
            bytes: buf,
        }));
        Ok(true)
    }

    fn recv(&mut self, x: usize, bytes: Vec<u8>, near: Option<usize>) -> Result<bool, String> {
        // Which recorded message do these bytes equal, if any?
        let id = self.log.iter().position(|r| r.bytes == bytes);
        let n = bytes.len();
        let m = self.model[x].clone();
        enum E {
            Yes,
            No,
            Either,
        }
        let mut after = m.clone();
        let expect = match (m.initiator, m.phase) {
            (false, Phase::Fresh) | (false, Phase::Unsure) => {
                if !(MIN_A..=MAX).contains(&n) {
                    E::No
                } else if bytes[..32].iter().all(|b| *b == 0) {
                    after.phase = Phase::Unsure;
                    E::No
                } else {
                    after.phase = Phase::GotA(id.filter(|i| self.log[*i].kind == Kind::A));
                    if m.phase == Phase::Unsure {
                        E::Either
                    } else {
                        E::Yes
                    }
                }
            }
            (true, Phase::SentA(a)) | (true, Phase::Broken(a)) => {
                if !(MIN_B..=MAX).contains(&n) {
                    E::No
                } else {
                    let genuine = id.map_or(false, |i| {
                        self.log[i].kind == (Kind::B { got: Some(a) })
                    });
                    if genuine {
                        after.phase = Phase::Up(id.unwrap());
                        if matches!(m.phase, Phase::Broken(_)) {
                            E::Either
                        } else {
                            E::Yes
                        }
                    } else {
                        after.phase = Phase::Broken(a);
                        E::No
                    }
                }
            }
            (_, Phase::Up(conn)) => {
                let d = m.dirs[m.inn()];
                let want = d.epoch.map(|epoch| Kind::T {
                    conn,
                    dir: m.inn() as u8,
                    epoch,
                    n: d.n,
                });
                match (id, want) {
                    (Some(i), Some(w)) if self.log[i].kind == w && n <= MAX => {
                        after.dirs[m.inn()].n += 1;
                        after.seen += 1;
                        E::Yes
                    }
                    _ => E::No,
                }
            }
            _ => E::No,
        };
        let before = self.real[x].get_message_count();
        let mut buf = bytes.clone();
        let ok = self.real[x].recv_message(&mut buf).is_ok();
        let what = || match (id, near) {
            (Some(i), _) => format!("message #{} of session {} ({:?})", i, self.log[i].from, self.log[i].kind),
            (None, Some(i)) => format!("an altered copy of message #{} of session {} ({:?})", i, self.log[i].from, self.log[i].kind),
            _ => format!("{} bytes nobody sent", n),
        };
        match (&expect, ok) {
            (E::Yes, false) => {
                return Err(format!(
                    "session {} ({}) in state {:?} refuses {}",
                    x,
                    role(m.initiator),
                    m.phase,
                    what()
                ))
            }
            (E::No, true) => {
                return Err(format!(
                    "session {} ({}) in state {:?} accepts {}",
                    x,
                    role(m.initiator),
                    m.phase,
                    what()
                ))
            }
            (E::Yes, true) | (E::Either, true) => {
                if let Some(i) = id {
                    let r = &self.log[i];
                    let (a, b) = match r.kind {
                        Kind::A => (32, n),
                        Kind::B { .. } => (80, n - MAC),
                        Kind::T { .. } => (0, n - MAC),
                    };
                    // A first message carries its payload in the clear, whoever made it.
                    let (a, b, want) = if m.up() || m.initiator { (a, b, &r.plain) } else { (32, n, &r.bytes) };
                    if buf[a..b] != want[a..b] {
                        return Err(format!(
                            "session {} accepts {} but obtains other contents",
                            x,
                            what()
                        ));
                    }
                }
                after.count += 1;
                self.model[x] = after;
                Ok(true)
            }
            (E::No, false) | (E::Either, false) => {
                if self.setup.watch.harmless {
                    if self.real[x].get_message_count() != before {
                        return Err(format!("refusing {} changes the message count", what()));
                    }
                    if let (Some(i), true) = (near.filter(|i| matches!(self.log[*i].kind, Kind::T { .. })), m.up()) {
                        let p = &self.log[i].plain;
                        let p = &p[..p.len().saturating_sub(MAC)];
                        if let Some(at) = leak(p, &buf) {
                            return Err(format!(
                                "session {} refuses {} but leaves decrypted plaintext in the buffer at {}",
                                x,
                                what(),
                                at
                            ));
                        }
                    }
                }
                if matches!(expect, E::No) {
                    // A refusal of an established session, or because of the size, has no effect.
                    if matches!(after.phase, Phase::Broken(_) | Phase::Unsure) {
                        self.model[x].phase = after.phase;
                    }
                }
                Ok(false)
            }
        }
    }

    fn observe(&self) -> Result<(), String> {
        for x in 0..2 {
            let m = &self.model[x];
            let r = &self.real[x];
            if r.is_transport() != m.up() {
                return Err(format!(
                    "session {} ({}) reports completion = {} in state {:?}",
                    x,
                    role(m.initiator),
                    r.is_transport(),
                    m.phase
                ));
            }
            if self.setup.watch.facts {
                let hh = r.get_handshake_hash();
                let k = r.get_remote_static_public_key();
                if hh.is_some() != m.up() {
                    return Err(format!("session {} in state {:?}: handshake hash present = {}", x, m.phase, hh.is_some()));
                }
                if k.is_some() != m.up() {
                    return Err(format!("session {} in state {:?}: remote key present = {}", x, m.phase, k.is_some()));
                }
                if m.initiator && m.up() {
                    let want = pair(if x == 0 { 1 + 1 } else { 1 }).get_public_key().as_bytes();
                    if k.unwrap().as_bytes() != want {
                        return Err(format!("session {} names another remote key than its peer's", x));
                    }
                }
            }
        }
        if self.setup.watch.facts {
            if let (Phase::Up(a), Phase::Up(b)) = (self.model[0].phase, self.model[1].phase) {
                let same = self.real[0].get_handshake_hash() == self.real[1].get_handshake_hash();
                if same != (a == b) {
                    return Err(format!("handshake hashes equal = {} for connections {} and {}", same, a, b));
                }
            }
        }
        Ok(())
    }
}

pub fn role(initiator: bool) -> &'static str {
    if initiator {
        "initiator"
    } else {
        "responder"
    }
}

/// Position of a run of plaintext (8 bytes, or all of it if shorter but at least 4) in a buffer.
pub fn leak(plain: &[u8], buf: &[u8]) -> Option<usize> {
    let w = plain.len().min(8);
    if w < 4 || buf.len() < w {
        return None;
    }
    // Position by position, and shifted by one either way (front cuts and extensions).
    for i in 0..=plain.len() - w {
        for s in [0isize, -1, 1] {
            let j = i as isize + s;
            if j >= 0 && j as usize + w <= buf.len() && buf[j as usize..j as usize + w] == plain[i..i + w] {
                return Some(i);
            }
        }
    }
    None
}

pub type Alphabet = dyn Fn(&Duo) -> Vec<Act> + Send + Sync;

/// Every sequence of exactly `depth` further actions.
pub fn dfs(d: &Duo, depth: usize, alphabet: &Alphabet, ctx: &mut Ctx) -> Res {
    if depth == 0 {
        ctx.traces += 1;
        return Ok(());
    }
    for a in alphabet(d) {
        let mut e = d.fork()?;
        e.apply(a, ctx)?;
        dfs(&e, depth - 1, alphabet, ctx)?;
    }
    Ok(())
}

/// A family exploring every action sequence of the given depth; the first two actions split it
/// into cases.
pub fn sequences(
    name: impl Into<String>,
    setup: Setup,
    depth: usize,
    cap: usize,
    alphabet: Box<Alphabet>,
) -> Family {
    // Without forking every step replays its history, so a shorter depth is explored.
    let depth = if can_fork() { depth } else { depth.saturating_sub(2).max(2) };
    let split = 2.min(depth);
    let size = (cap as u64).pow(split as u32);
    Family::new(
        name,
        size,
        format!("every action sequence of length {} (and all its prefixes)", depth),
        move |idx, ctx| {
            let mut r = Radix(idx);
            let mut d = Duo::new(setup)?;
            for _ in 0..split {
                let i = r.take(cap);
                let al = alphabet(&d);
                if al.len() > cap {
                    return Err(format!("harness: {} actions, cap {}", al.len(), cap));
                }
                match al.get(i) {
                    Some(a) => {
                        d.apply(*a, ctx)?;
                    }
                    None => {
                        ctx.uncounted = true; // only complete sequences count
                        return Ok(());
                    }
                }
            }
            ctx.uncounted = true; // only complete sequences count
            dfs(&d, depth - split, &*alphabet, ctx)
        },
    )
    .hang(400)
}
