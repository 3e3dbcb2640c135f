//! C24, C26: connection encryptors, and errors.

use crate::adapt::*;
use crate::cert_props::{authority_text, signed};
use crate::clock;
use crate::duo::{pair, pattern, secret, session};
use crate::engine::*;
use crate::refprims::x25519;
use noiseexplorer_nx::error::NoiseError;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::convert::TryFrom;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use stratumv2::error::Error;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, PartialEq, Debug)]
enum Alter {
    Exact,
    Flip(u32),
    FlipLast,
    Cut1,
    CutTo(u32),
    Ext1,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Init(u8),
    Recv(u8, u8, Alter),
    Junk(u8, u32, u8),
}

/// What a message is, symbolically.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Term {
    /// The first message of this outbound encryptor.
    First(u8),
    /// The reply of this inbound encryptor to an unaltered first message of that outbound one.
    Reply(u8, u8),
    /// A reply to something else, or traffic after completion: good for nobody's handshake.
    Other,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Fresh,
    /// Outbound, first message sent.
    Sent,
    /// Something was refused half-way; only the safety rules apply from here on.
    Unsure,
    /// Complete; an outbound end with this inbound one.
    Up(u8),
}

/// Ends 0 and 1 are outbound, 2 and 3 inbound.
struct World {
    real: Vec<ConnectionEncryptor>,
    keys: [Option<[u8; 32]>; 2],
    model: [End; 4],
    log: Vec<(Rc<Vec<u8>>, Term)>,
    hist: Vec<Do>,
}

fn can_fork() -> bool {
    !std::mem::needs_drop::<ConnectionEncryptor>()
}

fn inbound(e: u8) -> bool {
    e >= 2
}

impl World {
    fn new() -> World {
        let k = pair(70);
        let key = k.get_public_key().as_bytes();
        World {
            real: vec![
                ConnectionEncryptor::new_outbound(),
                ConnectionEncryptor::new_outbound(),
                ConnectionEncryptor::new_inbound(Some(k)),
                ConnectionEncryptor::new_inbound(None),
            ],
            keys: [Some(key), None],
            model: [End::Fresh; 4],
            log: vec![],
            hist: vec![],
        }
    }
    fn fork(&self) -> Result<World, String> {
        if can_fork() {
            Ok(World {
                real: self.real.iter().map(|e| unsafe { std::ptr::read(e) }).collect(),
                keys: self.keys,
                model: self.model,
                log: self.log.clone(),
                hist: self.hist.clone(),
            })
        } else {
            let mut w = World::new();
            let mut c = Ctx::default();
            for a in &self.hist {
                w.apply(*a, &mut c)?;
            }
            Ok(w)
        }
    }
    fn bytes(&self, a: Do) -> Vec<u8> {
        match a {
            Do::Init(_) => vec![],
            Do::Junk(_, n, kind) => match kind {
                0 => vec![0; n as usize],
                1 => vec![0xff; n as usize],
                _ => pattern(n as u64 + 1, n as usize),
            },
            Do::Recv(_, i, alt) => {
                let mut b = self.log[i as usize].0.to_vec();
                match alt {
                    Alter::Exact => {}
                    Alter::Flip(bit) => {
                        let bit = bit as usize % (b.len() * 8);
                        b[bit / 8] ^= 1 << (bit % 8);
                    }
                    Alter::FlipLast => {
                        let n = b.len() - 1;
                        b[n] ^= 0x80;
                    }
                    Alter::Cut1 => {
                        b.pop();
                    }
                    Alter::CutTo(n) => b.truncate(n as usize),
                    Alter::Ext1 => b.push(0),
                }
                b
            }
        }
    }
    fn apply(&mut self, a: Do, ctx: &mut Ctx) -> Res {
        let (e, mut buf) = match a {
            Do::Init(e) => (e, vec![]),
            Do::Recv(e, _, _) | Do::Junk(e, _, _) => (e, self.bytes(a)),
        };
        let x = e as usize;
        let before = self.model[x];
        let term = match a {
            Do::Recv(_, i, Alter::Exact) => self.log[i as usize].1,
            _ => Term::Other,
        };
        let n = buf.len();
        let head_degenerate = n >= 32 && {
            let mut k = [0u8; 32];
            k.copy_from_slice(&buf[..32]);
            x25519(&secret(900), &k) == [0u8; 32]
        };
        let got = match a {
            Do::Init(_) => self.real[x].init_handshake(),
            _ => self.real[x].recv_handshake(&mut buf),
        };
        self.hist.push(a);
        let ok = got.is_ok();
        ctx.note(|| format!("{:?}: {}", a, if ok { "ok" } else { "refused" }));
        // What must happen: Some(true) success, Some(false) refusal, None either.
        let init = matches!(a, Do::Init(_));
        let (want, after, out): (Option<bool>, End, Term) = match (before, inbound(e), init) {
            (End::Fresh, false, true) => (Some(true), End::Sent, Term::First(e)),
            (End::Fresh, false, false) => (Some(false), End::Fresh, Term::Other),
            (End::Sent, false, true) => (Some(false), End::Sent, Term::Other),
            (End::Sent, false, false) => match term {
                Term::Reply(i, o) if o == e => (Some(true), End::Up(i), Term::Other),
                _ if n < 96 || n > 65535 => (Some(false), End::Sent, Term::Other),
                _ => (Some(false), End::Unsure, Term::Other),
            },
            (End::Fresh, true, true) => (Some(false), End::Fresh, Term::Other),
            (End::Fresh, true, false) => {
                if n < 32 || n > 65535 {
                    (Some(false), End::Fresh, Term::Other)
                } else if head_degenerate || n < 96 {
                    (Some(false), End::Unsure, Term::Other)
                } else {
                    let out = match term {
                        Term::First(o) => Term::Reply(e, o),
                        _ => Term::Other,
                    };
                    (Some(true), End::Up(9), out)
                }
            }
            (End::Unsure, false, false) => match term {
                Term::Reply(i, o) if o == e && ok => (None, End::Up(i), Term::Other),
                Term::Reply(_, o) if o == e => (None, End::Unsure, Term::Other),
                _ => (Some(false), End::Unsure, Term::Other),
            },
            (End::Unsure, false, true) => (None, End::Unsure, Term::Other),
            // An inbound end that consumed a short first message may still answer it; nobody
            // can use that answer.
            (End::Sent, true, _) => unreachable!(),
            (End::Unsure, true, _) => (None, if ok { End::Up(9) } else { End::Unsure }, Term::Other),
            (End::Up(p), _, _) => (None, End::Up(p), Term::Other),
        };
        let show = || format!("{:?} at {:?} ({} bytes, {:?})", a, before, n, term);
        if let Some(w) = want {
            if ok != w {
                return Err(format!("{} {}", show(), if ok { "succeeds" } else { "is refused" }));
            }
        }
        self.model[x] = after;
        if let Ok(m) = got {
            if out != Term::Other && m.len() < 32 {
                return Err(format!("{} produces {} bytes", show(), m.len()));
            }
            self.log.push((Rc::new(m), out));
        }
        for i in 0..4u8 {
            let up = matches!(self.model[i as usize], End::Up(_));
            let r = &self.real[i as usize];
            if r.is_handshake_complete() != up {
                return Err(format!("after {}: end {} reports complete = {}", show(), i, !up));
            }
            if !inbound(i) {
                let k = r.get_remote_pubkey().map(|k| k.as_bytes());
                match self.model[i as usize] {
                    End::Up(p) => {
                        let want = self.keys[(p - 2) as usize];
                        if k.is_none() || k == Some([0; 32]) || (want.is_some() && k != want) || (want.is_none() && k == self.keys[0]) {
                            return Err(format!("after {}: outbound end {} reports the key {:?}", show(), i, k.map(hex::encode)));
                        }
                    }
                    _ if k.is_some() => return Err(format!("after {}: outbound end {} reports a key", show(), i)),
                    _ => {}
                }
            }
        }
        let code = |e: End| match e {
            End::Fresh => 0,
            End::Sent => 1,
            End::Unsure => 2,
            End::Up(p) => 3 + p as u64,
        };
        ctx.visit(h(&[24, code(self.model[0]), code(self.model[1]), code(self.model[2]), code(self.model[3]), self.log.len() as u64]));
        Ok(())
    }
}

type Alpha = dyn Fn(&World) -> Vec<Do> + Send + Sync;

fn walk(w: &World, depth: usize, al: &Alpha, ctx: &mut Ctx) -> Res {
    if depth == 0 {
        ctx.traces += 1;
        return Ok(());
    }
    for a in al(w) {
        let mut v = w.fork()?;
        v.apply(a, ctx)?;
        walk(&v, depth - 1, al, ctx)?;
    }
    Ok(())
}

fn all_sequences(name: &str, depth: usize, cap: usize, al: Box<Alpha>) -> Family {
    let depth = if can_fork() { depth } else { depth.saturating_sub(1).max(3) };
    Family::new(name, (cap as u64).pow(3), format!("every sequence of {} calls", depth), move |n, ctx| {
        let mut r = Radix(n);
        let mut w = World::new();
        ctx.uncounted = true;
        for _ in 0..3 {
            let i = r.take(cap);
            let v = al(&w);
            if v.len() > cap {
                return Err(format!("harness: {} actions, cap {}", v.len(), cap));
            }
            match v.get(i) {
                Some(a) => w.apply(*a, ctx)?,
                None => return Ok(()),
            }
        }
        walk(&w, depth - 3, &*al, ctx)
    })
    .hang(300)
}

/// A genuine exchange with one change, judged by the same model.
fn scripted(acts: &[Do], ctx: &mut Ctx) -> Result<World, String> {
    let mut w = World::new();
    for a in acts {
        w.apply(*a, ctx)?;
    }
    Ok(w)
}

/// An inbound (outbound) encryptor and a session that opens (answers) with a message of this size.
fn other_party(inbound: bool, size: usize, keys: u64, ctx: &mut Ctx) -> Res {
    let what = || format!("{} encryptor, a message of {} bytes, keys {}", if inbound { "inbound" } else { "outbound" }, size, keys);
    ctx.note(what);
    ctx.visit(h(&[24, 2000, inbound as u64, (size as u64).next_power_of_two()]));
    let k = keys * 4 + 0x24_0000;
    let done = |e: &ConnectionEncryptor, s: &noiseexplorer_nx::noisesession::NoiseSession| -> Res {
        if !e.is_handshake_complete() || !s.is_transport() {
            return Err(format!("{}: an end does not report completion", what()));
        }
        Ok(())
    };
    if inbound {
        let st = pair(k);
        let public = st.get_public_key().as_bytes();
        let mut e = ConnectionEncryptor::new_inbound(Some(st));
        let mut s = session(true, b"", k + 1, k + 2);
        let mut a = pattern(k, size);
        s.send_message(&mut a).map_err(|x| format!("harness: {:?}", x))?;
        let mut b = e.recv_handshake(&mut a).map_err(|x| format!("{}: the greeting is refused: {}", what(), x))?;
        if b.len() != size {
            return Err(format!("{}: the reply is of {} bytes", what(), b.len()));
        }
        s.recv_message(&mut b).map_err(|x| format!("{}: the reply is no good: {:?}", what(), x))?;
        done(&e, &s)?;
        if s.get_remote_static_public_key().map(|k| k.as_bytes()) != Some(public) {
            return Err(format!("{}: another static key than the given one arrives", what()));
        }
    } else {
        let mut e = ConnectionEncryptor::new_outbound();
        let mut s = session(false, b"", k, k + 1);
        let mut a = e.init_handshake().map_err(|x| format!("{}: no greeting: {}", what(), x))?;
        s.recv_message(&mut a).map_err(|x| format!("{}: the greeting is no good: {:?}", what(), x))?;
        let mut b = pattern(k, size);
        s.send_message(&mut b).map_err(|x| format!("harness: {:?}", x))?;
        if e.is_handshake_complete() || e.get_remote_pubkey().is_some() {
            return Err(format!("{}: complete before the reply", what()));
        }
        e.recv_handshake(&mut b).map_err(|x| format!("{}: the reply is refused: {}", what(), x))?;
        done(&e, &s)?;
        if e.get_remote_pubkey().map(|k| k.as_bytes()) != Some(pair(k).get_public_key().as_bytes()) {
            return Err(format!("{}: the static key is not reported", what()));
        }
    }
    Ok(())
}

pub fn c24(tier: Tier) -> Property {
    let mut f = vec![];
    f.push(all_sequences(
        "four ends",
        tier.pick(5, 6),
        30,
        Box::new(|w: &World| {
            let mut v: Vec<Do> = (0..4).map(Do::Init).collect();
            for e in 0..4 {
                for m in 0..w.log.len().min(6) {
                    v.push(Do::Recv(e, m as u8, Alter::Exact));
                }
            }
            v
        }),
    ));
    f.push(all_sequences(
        "two ends, altered messages",
        tier.pick(4, 5),
        60,
        Box::new(|w: &World| {
            let mut v: Vec<Do> = vec![Do::Init(0), Do::Init(2)];
            for e in [0u8, 2] {
                for m in 0..w.log.len().min(3) {
                    for alt in [
                        Alter::Exact,
                        Alter::Flip(0),
                        Alter::Flip(32 * 8),
                        Alter::Flip(90 * 8 + 3),
                        Alter::FlipLast,
                        Alter::Cut1,
                        Alter::CutTo(95),
                        Alter::CutTo(31),
                        Alter::Ext1,
                    ] {
                        v.push(Do::Recv(e, m as u8, alt));
                    }
                }
                v.push(Do::Junk(e, 1024, 2));
                v.push(Do::Junk(e, 0, 0));
            }
            v
        }),
    ));
    const I: Do = Do::Init(0);
    const R: Do = Do::Recv(2, 0, Alter::Exact);
    const B: Do = Do::Recv(0, 1, Alter::Exact);
    f.push(Family::new("every bit", 2 * 8192, "each bit of the first message and of the reply (1024 bytes each) changed, then the rest of the exchange", |n, ctx| {
        let mut r = Radix(n);
        let first = r.take(2) == 0;
        let bit = r.take(8192) as u32;
        if first {
            scripted(&[I, Do::Recv(2, 0, Alter::Flip(bit)), B], ctx)?;
        } else {
            scripted(&[I, R, Do::Recv(0, 1, Alter::Flip(bit)), B], ctx)?;
        }
        Ok(())
    }));
    f.push(Family::new("every truncation", 2 * 1024, "the first message and the reply cut to every length, then the genuine rest", |n, ctx| {
        let mut r = Radix(n);
        let first = r.take(2) == 0;
        let len = r.take(1024) as u32;
        if first {
            let mut w = World::new();
            for a in [I, Do::Recv(2, 0, Alter::CutTo(len)), R] {
                // The genuine message may come too late; then only the safety rules apply.
                w.apply(a, ctx)?;
            }
            if w.log.len() > 1 {
                w.apply(B, ctx)?;
            }
        } else {
            scripted(&[I, R, Do::Recv(0, 1, Alter::CutTo(len)), B], ctx)?;
        }
        Ok(())
    }));
    f.push(Family::new("junk of every size", 5 * 3 * 1200 + 5 * 3 * 8, "every size up to 1200 and sizes around 65535, three contents, to each end before, during and after a handshake", |n, ctx| {
        let mut r = Radix(n);
        let stage = r.take(5);
        let kind = r.take(3) as u8;
        let len = if (r.0 as usize) < 1200 { r.0 as u32 } else { [65534u32, 65535, 65536, 65537, 70_000, 100_000, 131_071, 1 << 20][r.0 as usize - 1200] };
        let (pre, e): (&[Do], u8) = match stage {
            0 => (&[], 0),
            1 => (&[], 2),
            2 => (&[I], 0),
            3 => (&[I, R], 2),
            _ => (&[I, R, B], 0),
        };
        let mut w = scripted(pre, ctx)?;
        w.apply(Do::Junk(e, len, kind), ctx)?;
        w.apply(Do::Init(e), ctx)?;
        Ok(())
    }));
    f.push(Family::new("identities", tier.pick(500, 5000), "inbound ends with distinct static keys: the outbound end reports exactly that key", |n, ctx| {
        let k = pair(n + 1000);
        let p = k.get_public_key().as_bytes();
        let mut o = ConnectionEncryptor::new_outbound();
        let mut i = ConnectionEncryptor::new_inbound(Some(k));
        let mut a = o.init_handshake().map_err(|e| format!("init: {}", e))?;
        let mut b = i.recv_handshake(&mut a).map_err(|e| format!("first message: {}", e))?;
        if o.is_handshake_complete() || !i.is_handshake_complete() {
            return Err("completion out of turn".into());
        }
        o.recv_handshake(&mut b).map_err(|e| format!("reply: {}", e))?;
        if !o.is_handshake_complete() || o.get_remote_pubkey().map(|k| k.as_bytes()) != Some(p) {
            return Err(format!("static key {} is not reported", hex::encode(p)));
        }
        ctx.visit(h(&[24, 1000]));
        Ok(())
    }));
    // The other end need not be an encryptor: any session that keeps to the protocol will do.
    f.push(Family::new("other parties of every size", 2 * (65535 - 96 + 1), "a session of either role as the counterpart, its message of every size from 96 to 65535", |n, ctx| {
        let mut r = Radix(n);
        let inbound = r.take(2) == 0;
        other_party(inbound, 96 + r.0 as usize, n % 64, ctx)
    }));
    const SIZES: [usize; 24] = [96, 100, 112, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 1460, 2048, 4095, 4096, 8192, 16384, 32768, 65520, 65535];
    let each = tier.pick(1500, 20_000);
    f.push(Family::new("other parties, many keys", 2 * 24 * each, format!("a session of either role as the counterpart, its message of 24 sizes, {} sets of keys and contents each", each), |n, ctx| {
        let mut r = Radix(n);
        let inbound = r.take(2) == 0;
        let size = SIZES[r.take(24)];
        other_party(inbound, size, 100 + r.0, ctx)
    }));
    Property {
        families: f,
        assumptions: vec![
            "calls on an encryptor whose handshake is complete must not panic and must not change what it reports; what else they return is not judged".into(),
            "after a refused reply of plausible size the outbound end may or may not still accept the genuine one".into(),
        ],
    }
}

// ---------------------------------------------------------------- C26

/// An error is reportable.
fn reportable(e: &(dyn std::error::Error + 'static), what: impl Fn() -> String, ctx: &mut Ctx) -> Res {
    let mut cur = Some(e);
    let mut n = 0;
    while let Some(x) = cur {
        if n > 64 {
            return Err(format!("{}: the chain of causes does not end", what()));
        }
        let t = format!("{}", x);
        if t.trim().is_empty() {
            return Err(format!("{}: empty text at cause {}", what(), n));
        }
        if t.len() > 100_000 {
            return Err(format!("{}: {} bytes of text", what(), t.len()));
        }
        if format!("{:?}", x).is_empty() {
            return Err(format!("{}: empty debug text", what()));
        }
        n += 1;
        cur = x.source();
    }
    ctx.note(|| format!("{}: {} ({} causes)", what(), e, n - 1));
    // The older way of asking for the cause.
    #[allow(deprecated)]
    {
        let (mut old, mut m) = (Some(e), 0);
        while let Some(x) = old {
            if m > 64 {
                return Err(format!("{}: the chain of causes, asked for with cause(), does not end", what()));
            }
            let _ = x.description();
            m += 1;
            old = x.cause();
        }
    }
    ctx.visit(h(&[26, n, hs(&format!("{}", e))]));
    Ok(())
}

/// An error with a chain of `n` causes.
#[derive(Debug)]
struct Chain(usize, Option<Box<Chain>>);
impl Chain {
    fn new(n: usize) -> Chain {
        Chain(n, if n == 0 { None } else { Some(Box::new(Chain::new(n - 1))) })
    }
}
impl std::fmt::Display for Chain {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "link {}", self.0)
    }
}
impl std::error::Error for Chain {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_deref().map(|c| c as _)
    }
}

fn noise_errors() -> Vec<NoiseError> {
    use NoiseError::*;
    vec![
        DecryptionError,
        UnsupportedMessageLengthError,
        ExhaustedNonceError,
        InvalidKeyError,
        InvalidPublicKeyError,
        EmptyKeyError,
        InvalidInputError,
        DerivePublicKeyFromEmptyKeyError,
        Hex(hex::FromHexError::OddLength),
        Hex(hex::FromHexError::InvalidStringLength),
        Hex(hex::FromHexError::InvalidHexCharacter { c: 'x', index: 3 }),
        MissingnsError,
        MissingneError,
        MissingHsMacError,
        MissingrsError,
        MissingreError,
    ]
}

fn io_kinds() -> Vec<std::io::ErrorKind> {
    use std::io::ErrorKind::*;
    vec![
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput,
        InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ]
}

/// One of each kind of error, made directly.
fn built_errors() -> Vec<(String, Error)> {
    let mut v: Vec<(String, Error)> = vec![];
    for n in noise_errors() {
        v.push((format!("{:?}", n), Error::NoiseError(n)));
    }
    for s in ["", " ", "text", "{}", "{0}", "%s", "\0", "`", "multi\nline", &"x".repeat(5000)] {
        v.push((format!("VersionError({:?})", s), Error::VersionError(s.into())));
        v.push((format!("ProtocolMismatchError({:?})", s), Error::ProtocolMismatchError(s.into())));
        v.push((format!("RequirementError({:?})", s), Error::RequirementError(s.into())));
        v.push((format!("DeserializationError({:?})", s), Error::DeserializationError(s.into())));
        v.push((format!("ParseError({:?})", s), Error::ParseError(s.into())));
    }
    for k in io_kinds() {
        v.push((format!("{:?}", k), Error::IOError(k.into())));
        for n in 0..6 {
            v.push((format!("{:?} with {} causes", k, n), Error::IOError(std::io::Error::new(k, Chain::new(n)))));
        }
    }
    for n in 0..140 {
        v.push((format!("system error {}", n), Error::IOError(std::io::Error::from_raw_os_error(n))));
    }
    for b in [&b"\xff"[..], b"\xc3", b"a\xe2\x82", b"\xed\xa0\x80", b"ab\xf5"] {
        v.push(("Utf8Error".into(), Error::Utf8Error(std::str::from_utf8(b).unwrap_err())));
        v.push(("FromUtf8Error".into(), Error::FromUtf8Error(String::from_utf8(b.to_vec()).unwrap_err())));
    }
    v.push(("TryFromSliceError".into(), Error::TryFromSliceError(<[u8; 4]>::try_from(&[0u8; 3][..]).unwrap_err())));
    let early = std::time::SystemTime::UNIX_EPOCH - std::time::Duration::from_secs(5);
    v.push(("SystemTimeError".into(), Error::SystemTimeError(early.duration_since(std::time::SystemTime::UNIX_EPOCH).unwrap_err())));
    for (t, c, b) in [(0u16, 0u8, false), (0xffff, 0xff, true), (1, 2, true)] {
        v.push(("UnexpectedMessageType".into(), Error::UnexpectedMessageType(t, c)));
        v.push(("UnexpectedChannelBit".into(), Error::UnexpectedChannelBit(b)));
    }
    v.push(("Unimplemented".into(), Error::Unimplemented()));
    v.push(("UnknownErrorCode".into(), Error::UnknownErrorCode()));
    v.push(("UnknownMessageType".into(), Error::UnknownMessageType()));
    v.push(("UnknownFlags".into(), Error::UnknownFlags()));
    v.push(("AuthorityKeyError".into(), Error::AuthorityKeyError(ed25519_dalek::PublicKey::from_bytes(&[7; 5]).unwrap_err())));
    v
}

/// An error wrapped `n` times by io::Error and back, as happens when it crosses writers.
fn wrapped(e: Error, n: usize) -> Error {
    let mut e = e;
    for _ in 0..n {
        e = Error::IOError(std::io::Error::new(std::io::ErrorKind::Other, Shell(e)));
    }
    e
}
#[derive(Debug)]
struct Shell(Error);
impl std::fmt::Display for Shell {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "shell of {}", self.0)
    }
}
impl std::error::Error for Shell {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}

pub fn c26(tier: Tier) -> Property {
    let mut f = vec![];
    let total = built_errors().len();
    f.push(Family::new("every kind of error", total as u64 * 5, "every variant with representative contents, as it is and wrapped up to four times by I/O errors", move |n, ctx| {
        let mut r = Radix(n);
        let (name, e) = built_errors().swap_remove(r.take(total));
        let w = wrapped(e, r.take(5));
        reportable(&w, || name.clone(), ctx)
    }));
    f.push(Family::new("session errors", noise_errors().len() as u64, "every variant of the session error, alone and converted", |n, ctx| {
        let e = noise_errors().swap_remove(n as usize);
        reportable(&e, || format!("{:?}", e), ctx)?;
        let e = Error::from(noise_errors().swap_remove(n as usize));
        reportable(&e, || format!("{:?}", e), ctx)
    }));
    // Errors the decoders return.
    let kinds = Arc::new(all_kinds());
    let nk = kinds.len();
    {
        let kinds = kinds.clone();
        f.push(Family::new("decoding errors", (nk * 65793) as u64, "every byte string of at most two bytes decoded as every type", move |n, ctx| {
            let mut r = Radix(n);
            let k = &kinds[r.take(nk)];
            let b: Vec<u8> = match r.0 {
                0 => vec![],
                x if x <= 256 => vec![(x - 1) as u8],
                x => ((x - 257) as u16).to_le_bytes().to_vec(),
            };
            if let Err(e) = k.ops.decode_fn(&b)? {
                reportable(&e, || format!("decoding {} from {}", k.name, hex::encode(&b)), ctx)?;
            }
            Ok(())
        }));
    }
    {
        let kinds = kinds.clone();
        f.push(Family::new("decoding errors of messages", (nk * 700 * 6) as u64, "a valid encoding of every type with each of its first 700 bytes cut off or replaced", move |n, ctx| {
            let mut r = Radix(n);
            let k = &kinds[r.take(nk)];
            let at = r.take(700);
            let how = r.take(6);
            let tag = *crate::domain::tags(k).last().unwrap();
            let v = crate::domain::base_vals(k, tag);
            let mut b = crate::refcodec::ref_encode(&k.schema, &v);
            if at >= b.len() {
                ctx.uncounted = true;
                return Ok(());
            }
            match how {
                0 => b.truncate(at),
                1 => b[at] = 0xff,
                2 => b[at] = 0,
                3 => b[at] ^= 0x80,
                4 => b[at] = b[at].wrapping_add(1),
                _ => {
                    b.remove(at);
                }
            }
            if let Err(e) = k.ops.decode_fn(&b)? {
                reportable(&e, || format!("decoding {} with byte {} changed ({})", k.name, at, how), ctx)?;
            }
            if let Some((mt, ops)) = &k.framed {
                let m = stratumv2::codec::Message::new(message_types()[*mt], b);
                if let Err(e) = ops.unframe(&m)? {
                    reportable(&e, || format!("opening {} with byte {} changed ({})", k.name, at, how), ctx)?;
                }
            }
            Ok(())
        }));
    }
    // Errors from sinks.
    {
        let kinds = kinds.clone();
        let nio = io_kinds().len();
        f.push(Family::new("sink errors", (nk * nio * 8) as u64, "every type encoded into a sink failing with each kind of I/O error after 0..8 bytes", move |n, ctx| {
            struct Fail(usize, std::io::ErrorKind);
            impl std::io::Write for Fail {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    if self.0 == 0 {
                        return Err(std::io::Error::new(self.1, Chain::new(2)));
                    }
                    let n = b.len().min(self.0);
                    self.0 -= n;
                    Ok(n)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let mut r = Radix(n);
            let k = &kinds[r.take(nk)];
            let kind = io_kinds()[r.take(nio)];
            if kind == std::io::ErrorKind::Interrupted {
                ctx.uncounted = true;
                return Ok(());
            }
            let v = crate::domain::base_vals(k, *crate::domain::tags(k).last().unwrap());
            if let Ok(Err(e)) = k.ops.encode(&v, &mut Fail(r.take(8), kind)) {
                reportable(&e, || format!("encoding {} into a failing sink", k.name), ctx)?;
            }
            Ok(())
        }));
    }
    // Errors from building.
    {
        let kinds = kinds.clone();
        f.push(Family::new("construction errors", nk as u64 * 12, "every type built from values that break its limits or rules", move |n, ctx| {
            let mut r = Radix(n);
            let k = &kinds[r.take(nk)];
            let how = r.take(12);
            let tags = crate::domain::tags(k);
            let mut v = crate::domain::base_vals(k, tags[how % tags.len()]);
            for (i, (x, (_, t))) in v.iter_mut().zip(k.schema.fields(tags[how % tags.len()])).enumerate() {
                use crate::refcodec::{Ty, Val};
                match t {
                    Ty::Str(max) if i % 6 == how % 6 => *x = Val::B(vec![b'x'; if how < 6 { max + 1 } else { 0 }]),
                    Ty::Bytes { max, .. } if i % 6 == how % 6 && max < 70_000 => *x = Val::B(vec![1; max + 1]),
                    Ty::U16 if i % 6 == how % 6 => *x = Val::N(how as u64 % 2),
                    Ty::U24 => *x = Val::N(1 << 24),
                    Ty::Flags(_) if how % 2 == 0 => *x = Val::N(0),
                    Ty::Code(_) => *x = Val::N(0),
                    _ => {}
                }
            }
            if let Err(e) = k.ops.build(&v)? {
                reportable(&e, || format!("building {}", k.name), ctx)?;
            }
            Ok(())
        }));
    }
    // Errors from sessions and encryptors in every phase.
    f.push(Family::new("session call errors", 6u64.pow(tier.pick(5, 6)) * 4, "every sequence of calls on a session of either role with sizes 0, 31, 32, 96, 128, 65536 (send and receive)", {
        let depth = tier.pick(5, 6);
        move |n, ctx| {
            let mut r = Radix(n);
            let initiator = r.take(2) == 0;
            let alternate = r.take(2);
            let mut s = session(initiator, b"", 1, 3);
            for d in 0..depth {
                let size = [0usize, 31, 32, 96, 128, 65536][r.take(6)];
                let mut b = pattern(d as u64, size);
                let send = (d + alternate) % 2 == 0;
                let e = if send { s.send_message(&mut b).err() } else { s.recv_message(&mut b).err() };
                if let Some(e) = e {
                    reportable(&e, || format!("step {} ({} bytes)", d, size), ctx)?;
                    let e = Error::from(e);
                    reportable(&e, || format!("step {} ({} bytes), converted", d, size), ctx)?;
                }
            }
            Ok(())
        }
    }));
    f.push(Family::new("handshake errors", 4 * 1200, "encryptors given junk of every size before and during a handshake, and a session given an altered reply", |n, ctx| {
        let mut r = Radix(n);
        let how = r.take(4);
        let size = r.take(1200);
        let mut junk = pattern(size as u64, size);
        let e = match how {
            0 => ConnectionEncryptor::new_inbound(None).recv_handshake(&mut junk).err(),
            1 => ConnectionEncryptor::new_outbound().recv_handshake(&mut junk).err(),
            2 => ConnectionEncryptor::new_inbound(None).init_handshake().err(),
            _ => {
                let mut o = ConnectionEncryptor::new_outbound();
                match o.init_handshake() {
                    Err(e) => Some(e),
                    Ok(_) => o.recv_handshake(&mut junk).err(),
                }
            }
        };
        if let Some(e) = e {
            reportable(&e, || format!("encryptor case {} with {} bytes", how, size), ctx)?;
        }
        Ok(())
    }));
    f.push(Family::new("key errors", 130 * 6, "texts of every length up to 130 as every kind of key, degenerate and empty keys", |n, ctx| {
        let mut r = Radix(n);
        let len = r.take(130);
        let s: String = std::iter::repeat(['0', 'g', 'f', 'é', ' ', '1'][r.take(6)]).take(len).collect();
        for e in [
            PublicKey::from_str(&s).err(),
            PrivateKey::from_str(&s).err(),
            Key::from_str(&s).err(),
            Psk::from_str(&s).err(),
            Keypair::from_private_key(PrivateKey::empty()).err(),
            PublicKey::from_bytes([0; 32]).err(),
        ]
        .into_iter()
        .flatten()
        {
            reportable(&e, || format!("key from {:?}", s), ctx)?;
        }
        Ok(())
    }));
    f.push(Family::new("certificate and clock errors", 300, "authority keys of every length, altered signatures, clocks out of range and windows missed", |n, ctx| {
        let kb = pair(41).get_public_key();
        let m = signed(1, 0, 1000, 2000, &kb.as_bytes());
        let auth = match n % 5 {
            0 => "1".repeat(n as usize / 5),
            1 => "z".repeat(n as usize / 5),
            2 => "0OIl".into(),
            _ => authority_text(1 + n % 2),
        };
        let now = [1500i64, 0, 5000, -5, 1 << 33][n as usize / 60];
        let e = clock::at(now, 0, || match stratumv2::noise::CertificateFormat::new(&auth, &kb, &m) {
            Err(e) => Some(e),
            Ok(c) => c.verify().err(),
        });
        if let Some(e) = e {
            reportable(&e, || format!("certificate case {}", n), ctx)?;
        }
        if let Some(e) = clock::at(now, 0, || stratumv2::types::unix_timestamp::unix_u32_now().err()) {
            reportable(&e, || format!("clock at {}", now), ctx)?;
        }
        if let Err(e) = stratumv2::noise::SignedCertificate::new(0, n as u32, 10, &kb) {
            reportable(&e, || "certificate window".into(), ctx)?;
        }
        Ok(())
    }));
    Property {
        families: f,
        assumptions: vec!["a chain of more than 64 causes counts as endless".into()],
    }
}
