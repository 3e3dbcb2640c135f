//! C29 (fresh secrets), C30 (no hidden state), C31 (exact comparisons and conversions).

use crate::adapt::*;
use crate::cert_props::{authority, authority_text, signed};
use crate::clock;
use crate::domain::*;
use crate::duo::{pair, pattern, secret, session};
use crate::engine::*;
use crate::refcodec::*;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Keypair, PrivateKey, PublicKey};
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::str::FromStr;
use std::sync::Arc;
use stratumv2::codec::{deserialize, serialize, Message};
use stratumv2::network::{ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::{generate_authority_keypair, new_noise_initiator, new_noise_responder, CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticPublicKey};
use stratumv2::types::*;

// ---------------------------------------------------------------- C29

type Draw = Vec<(&'static str, [u8; 32])>;

fn b32(b: &[u8]) -> [u8; 32] {
    core::array::from_fn(|i| b[i])
}

fn greeting(s: &mut NoiseSession) -> Result<[u8; 32], String> {
    let mut a = pattern(1, 64);
    s.send_message(&mut a).map_err(|e| format!("the first message cannot be sent: {}", e))?;
    Ok(b32(&a))
}

/// The key agreement public key and, if it is not `own`, the static key of a responder.
fn reply(r: &mut NoiseSession) -> Result<Draw, String> {
    let mut i = session(true, b"", 1, 3);
    let mut m = pattern(2, 128);
    let e = |x: noiseexplorer_nx::error::NoiseError| format!("a handshake does not complete: {}", x);
    i.send_message(&mut m).map_err(e)?;
    r.recv_message(&mut m).map_err(e)?;
    r.send_message(&mut m).map_err(e)?;
    let eph = b32(&m);
    i.recv_message(&mut m).map_err(e)?;
    match i.get_remote_static_public_key() {
        Some(k) => Ok(vec![("responder's ephemeral key", eph), ("responder's static key", k.as_bytes())]),
        None => Err("no remote key after a handshake".into()),
    }
}

fn connection(key: Option<Keypair>) -> Result<Draw, String> {
    let mut o = ConnectionEncryptor::new_outbound();
    let mut i = ConnectionEncryptor::new_inbound(key);
    let e = |x: stratumv2::error::Error| format!("a connection's handshake does not complete: {}", x);
    let mut a = o.init_handshake().map_err(e)?;
    let first = b32(&a);
    let mut b = i.recv_handshake(&mut a).map_err(e)?;
    let second = b32(&b);
    o.recv_handshake(&mut b).map_err(e)?;
    match o.get_remote_pubkey() {
        Some(k) => Ok(vec![("outbound ephemeral key", first), ("inbound ephemeral key", second), ("inbound static key", k.as_bytes())]),
        None => Err("no remote key after a connection's handshake".into()),
    }
}

const SOURCES: usize = 10;

/// Everything that one use of a source of secrets shows.
fn draw(k: usize) -> Result<Draw, String> {
    Ok(match k {
        0 => vec![("initiator's ephemeral key", greeting(&mut new_noise_initiator())?)],
        1 => vec![("ephemeral key of a session with a given static key", greeting(&mut NoiseSession::init_session(true, b"", pair(1)))?)],
        2 => vec![("ephemeral key of a session with a prologue", greeting(&mut NoiseSession::init_session(true, b"mc", Keypair::new_empty()))?)],
        3 => {
            let mut v = reply(&mut new_noise_responder(Some(pair(2))))?;
            let s = v.pop().unwrap();
            if s.1 != pair(2).get_public_key().as_bytes() {
                return Err("a responder does not use the static key it was given".into());
            }
            v
        }
        4 => reply(&mut new_noise_responder(None))?,
        5 => {
            let mut v = connection(Some(pair(2)))?;
            v.pop();
            v
        }
        6 => connection(None)?,
        7 => vec![("generated key pair", Keypair::default().get_public_key().as_bytes())],
        8 => vec![("generated authority key", generate_authority_keypair().public.to_bytes())],
        _ => {
            // Both ends of one exchange.
            let mut i = NoiseSession::init_session(true, b"x", Keypair::default());
            let mut r = NoiseSession::init_session(false, b"x", Keypair::default());
            let e = |x: noiseexplorer_nx::error::NoiseError| format!("a handshake does not complete: {}", x);
            let mut m = pattern(2, 128);
            i.send_message(&mut m).map_err(e)?;
            let a = b32(&m);
            r.recv_message(&mut m).map_err(e)?;
            r.send_message(&mut m).map_err(e)?;
            let b = b32(&m);
            i.recv_message(&mut m).map_err(e)?;
            let k = i.get_remote_static_public_key().ok_or("no remote key")?.as_bytes();
            vec![("ephemeral key of one end", a), ("ephemeral key of the other end", b), ("generated static key", k)]
        }
    })
}

fn distinct(all: &[(&'static str, [u8; 32])]) -> Res {
    let mut seen: HashMap<[u8; 32], &str> = HashMap::new();
    for (k, what) in [(pair(1), "a given static key"), (pair(2), "a given static key"), (pair(3), "another end's ephemeral key")] {
        seen.insert(k.get_public_key().as_bytes(), what);
    }
    seen.insert([0; 32], "the empty key");
    seen.insert(crate::refprims::x25519(&[0; 32], &b32(&[9u8].iter().copied().chain([0; 31]).collect::<Vec<_>>())), "the public key of the all-zero secret");
    for (what, k) in all {
        if let Some(other) = seen.insert(*k, what) {
            return Err(format!("{} and {} are the same: {}", other, what, hex::encode(k)));
        }
    }
    Ok(())
}

/// For another process to compare with: every source twice.
pub fn print_draws(alike: bool) -> i32 {
    if alike {
        clock::pretend_pid(7);
        return clock::still(|| print_draws(false));
    }
    for k in 0..SOURCES * 2 {
        match draw(k % SOURCES) {
            Ok(v) => v.iter().for_each(|(w, k)| println!("{}={}", w, hex::encode(k))),
            Err(e) => {
                eprintln!("{}", e);
                return 1;
            }
        }
    }
    0
}

/// Draws into text; what goes wrong is shown like a draw that cannot be compared.
fn draw_text(k: usize) -> String {
    match draw(k) {
        Ok(v) => v.iter().map(|(w, k)| format!("{}={}\n", w, hex::encode(k))).collect(),
        Err(e) => format!("failed: {}\n", e),
    }
}

fn put(text: &str) {
    let b = text.as_bytes();
    let mut at = 0;
    while at < b.len() {
        match unsafe { libc::write(1, b[at..].as_ptr() as *const _, b.len() - at) } {
            n if n > 0 => at += n as usize,
            _ => unsafe { libc::_exit(3) },
        }
    }
}

/// Runs `f` in a fork of this process, which has one thread only.
fn forked(f: impl FnOnce()) {
    unsafe {
        match libc::fork() {
            0 => {
                f();
                libc::_exit(0)
            }
            p if p > 0 => {
                let mut status = 0;
                if libc::waitpid(p, &mut status, 0) != p || status != 0 {
                    put("failed: a forked process ends badly\n");
                }
            }
            _ => put("harness: no fork\n"),
        }
    }
}

/// One process after the use `first` (or none) and its forks: for every pair of sources two
/// children, a grandchild and then the process itself draw.
pub fn print_forks(first: usize) -> i32 {
    if first < SOURCES {
        put(&draw_text(first));
    }
    for k1 in 0..SOURCES {
        for k2 in 0..SOURCES {
            forked(|| {
                put(&draw_text(k1));
                forked(|| put(&draw_text(k2)));
                put(&draw_text(k2));
            });
            forked(|| put(&draw_text(k2)));
            put(&draw_text(k1));
        }
    }
    0
}

pub fn c29(tier: Tier) -> Property {
    let mut f = vec![];
    for frozen in [false, true] {
        let depth = tier.pick(4, 5);
        f.push(Family::new(
            if frozen { "sequences, clock standing still" } else { "sequences" },
            (SOURCES as u64).pow(depth),
            format!("every sequence of {} uses of the {} sources of secrets on one thread", depth, SOURCES),
            move |n, ctx| {
                let mut r = Radix(n);
                let ks: Vec<usize> = (0..depth).map(|_| r.take(SOURCES)).collect();
                let go = |ctx: &mut Ctx| {
                    let mut all = vec![];
                    for k in &ks {
                        all.extend(draw(*k)?);
                        ctx.visit(h(&[29, *k as u64, all.len() as u64]));
                    }
                    distinct(&all).map_err(|e| format!("uses {:?}: {}", ks, e))
                };
                if frozen {
                    clock::still(|| go(ctx))
                } else {
                    go(ctx)
                }
            },
        ));
    }
    // On several threads.
    f.push(Family::new(
        "threads",
        (SOURCES * SOURCES * SOURCES * 4) as u64,
        "every triple of sources on three fresh threads, one after the other or at once, clocks running or standing still",
        |n, ctx| {
            let mut r = Radix(n);
            let at_once = r.take(2) == 1;
            let frozen = r.take(2) == 1;
            let ks = [r.take(SOURCES), r.take(SOURCES), r.take(SOURCES)];
            ctx.visit(h(&[29, 1, n]));
            let all: Result<Vec<Draw>, String> = std::thread::scope(|s| {
                let mut out = vec![];
                let mut running = vec![];
                for k in ks {
                    let t = s.spawn(move || if frozen { clock::still(|| draw(k)) } else { draw(k) });
                    if at_once {
                        running.push(t);
                    } else {
                        out.push(t.join().unwrap_or_else(|_| Err("panics".into())));
                    }
                }
                out.extend(running.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("panics".into()))));
                out.into_iter().collect()
            });
            distinct(&all?.concat()).map_err(|e| format!("uses {:?} on three threads: {}", ks, e))
        },
    ));
    let many = tier.pick(70_000usize, 1_000_000);
    f.push(
        Family::new("many uses of one source", SOURCES as u64, format!("{} uses in a row (key generation) or a tenth as many (handshakes)", many), move |n, ctx| {
            let k = n as usize;
            let mut all = vec![];
            for _ in 0..if [0, 1, 2, 7, 8].contains(&k) { many } else { many / 10 } {
                all.extend(draw(k)?);
                ctx.visit(h(&[29, 2, n]));
            }
            distinct(&all)
        })
        .hang(800),
    );
    // In several processes.
    f.push(Family::new("processes", 8, "every source twice in each of two processes and in this one; the two as they come, or as alike as can be: same clock, same process number, same addresses", |n, ctx| {
        use std::os::unix::process::CommandExt;
        let alike = n & 1 == 1;
        let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
        let mut all: HashSet<String> = HashSet::new();
        for _ in 0..2 {
            let mut c = std::process::Command::new(&exe);
            c.arg("draw");
            if alike {
                c.arg("alike");
                unsafe {
                    c.pre_exec(|| {
                        libc::personality(libc::ADDR_NO_RANDOMIZE as _);
                        Ok(())
                    });
                }
            }
            let o = c.output().map_err(|e| format!("harness: {}", e))?;
            if !o.status.success() {
                return Err(format!("a process cannot draw its keys: {}", String::from_utf8_lossy(&o.stderr)));
            }
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let k = l.split('=').nth(1).unwrap_or("").to_string();
                ctx.visit(h(&[29, 3, all.len() as u64]));
                if !all.insert(k) {
                    return Err(format!("two processes, or one of them twice, generate the same {}", l));
                }
            }
        }
        for k in 0..SOURCES {
            for (w, k) in draw(k)? {
                if all.contains(&hex::encode(k)) {
                    return Err(format!("two processes generate the same {}: {}", w, hex::encode(k)));
                }
            }
        }
        Ok(())
    }));
    f.push(Family::new("forked processes", SOURCES as u64 + 1, "after every first use, or none: for every pair of sources a process forks two children and the first of them a grandchild, which all draw, and then draws itself", |n, ctx| {
        let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
        let o = std::process::Command::new(&exe).args(["forks", &n.to_string()]).output().map_err(|e| format!("harness: {}", e))?;
        if !o.status.success() {
            return Err(format!("harness: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let text = String::from_utf8_lossy(&o.stdout);
        let mut all: HashSet<&str> = HashSet::new();
        for l in text.lines() {
            ctx.visit(h(&[29, 5, n, all.len() as u64]));
            let Some((_, k)) = l.split_once('=') else {
                return Err(l.into());
            };
            if !all.insert(k) {
                return Err(format!("a process and one forked from it, or one of them twice, generate the same {}", l));
            }
        }
        if all.len() < SOURCES * SOURCES * 5 {
            return Err("harness: draws are missing".into());
        }
        Ok(())
    }));
    // A key that was given is used, and only in its own session.
    f.push(Family::new("given keys", 4 * 4 * 4, "every sequence of three sessions, each with a given ephemeral key or without", |n, ctx| {
        let mut r = Radix(n);
        let mut all = vec![];
        for j in 0..3 {
            let k = r.take(4);
            let initiator = k & 1 == 0;
            let given = k & 2 == 2;
            let mut s = NoiseSession::init_session(initiator, b"", pair(5));
            let own = pair(600 + j);
            if given {
                s.set_ephemeral_keypair(own.clone());
            }
            let e = if initiator { greeting(&mut s)? } else { reply(&mut s)?[0].1 };
            if given && e != own.get_public_key().as_bytes() {
                return Err("a session does not use the ephemeral key it was given".into());
            }
            all.push(("ephemeral key", e));
            ctx.visit(h(&[29, 4, n, j]));
        }
        distinct(&all)
    }));
    Property { families: f, assumptions: vec!["two values drawn from the operating system's generator coincide with negligible probability".into()] }
}

// ---------------------------------------------------------------- C30

/// An operation and what it showed; an error is a violation by itself.
struct Op {
    name: String,
    run: Box<dyn Fn() -> Result<Vec<u8>, String> + Send + Sync>,
}

struct Fails {
    left: usize,
    got: Vec<u8>,
}
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn show<T>(r: Result<T, String>, f: impl Fn(&T) -> Vec<u8>) -> Vec<u8> {
    match r {
        Ok(x) => {
            let mut v = b"ok ".to_vec();
            v.extend(f(&x));
            v
        }
        Err(e) => format!("error {}", e).into_bytes(),
    }
}

thread_local! {
    /// What the caller's own code does when the library calls it.
    static HOOK: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) };
}

/// The library calls the caller's code: the hook, once.
fn called_back() {
    let f = HOOK.with(|k| k.borrow_mut().take());
    if let Some(mut f) = f {
        f()
    }
}

/// A sink that calls the hook before the write of this number.
struct Calls {
    before: usize,
    writes: usize,
    got: Vec<u8>,
}
impl std::io::Write for Calls {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.writes == self.before {
            called_back();
        }
        self.writes += 1;
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A message of the caller's own, whose encoding, decoding and conversion call the hook.
#[derive(Debug, PartialEq)]
struct Own(u16, u8);
impl stratumv2::codec::Serializable for Own {
    fn serialize<W: std::io::Write>(&self, w: &mut W) -> Result<usize, stratumv2::error::Error> {
        let n = self.0.serialize(w)?;
        called_back();
        Ok(n + self.1.serialize(w)?)
    }
}
impl stratumv2::codec::Deserializable for Own {
    fn deserialize(p: &mut stratumv2::codec::ByteParser) -> Result<Own, stratumv2::error::Error> {
        let a = u16::deserialize(p)?;
        called_back();
        Ok(Own(a, u8::deserialize(p)?))
    }
}
impl stratumv2::codec::Frameable for Own {
    fn message_type() -> MessageType {
        MessageType::Reconnect
    }
}
impl From<Own> for Vec<u8> {
    fn from(o: Own) -> Vec<u8> {
        called_back();
        vec![(o.0 >> 8) as u8, o.0 as u8, o.1]
    }
}
impl From<Own> for String {
    fn from(o: Own) -> String {
        called_back();
        format!("{} {}", o.0, o.1)
    }
}

/// Operations of the library that call the caller's code: a name, and what it gives.
type Outer = (String, Box<dyn Fn() -> Result<Vec<u8>, String> + Send + Sync>);

fn outer_operations() -> Vec<Outer> {
    use stratumv2::codec::{frame, unframe};
    let mut v: Vec<Outer> = vec![];
    for k in all_kinds() {
        let tag = tags(&k)[tags(&k).len() - 1];
        let vals = base_vals(&k, tag);
        if !valid(&k.schema, &vals) {
            continue;
        }
        let encode = move |k: &Kind, vals: &[Val], before: usize| -> Result<(Vec<u8>, usize), String> {
            let mut w = Calls { before, writes: 0, got: vec![] };
            match k.ops.encode(vals, &mut w) {
                Ok(Ok(n)) if n == w.got.len() => Ok((w.got, w.writes)),
                Ok(Ok(n)) => Err(format!("{} reports {} of {} bytes", k.name, n, w.got.len())),
                Ok(Err(e)) => Err(format!("{} cannot be encoded: {}", k.name, e)),
                Err(e) => Err(format!("{} cannot be built: {}", k.name, e)),
            }
        };
        let writes = encode(&k, &vals, usize::MAX).map_or(0, |x| x.1);
        let mut at = vec![0, writes / 2, writes.saturating_sub(1)];
        at.dedup();
        for before in at {
            let (k, vals) = (kind(k.name), vals.clone());
            v.push((format!("encoding {}, before write {}", k.name, before), Box::new(move || encode(&k, &vals, before).map(|x| x.0))));
        }
    }
    let e = |e: stratumv2::error::Error| e.to_string();
    v.push(("encoding a message of the caller's".into(), Box::new(move || serialize(&Own(0x102, 3)).map_err(e))));
    v.push(("framing a message of the caller's".into(), Box::new(move || frame(&Own(0x102, 3)).and_then(|m| serialize(&m)).map_err(e))));
    v.push(("decoding a message of the caller's".into(), Box::new(move || deserialize::<Own>(&[1, 2, 3]).map(|o| format!("{:?}", o).into_bytes()).map_err(e))));
    v.push((
        "unframing a message of the caller's".into(),
        Box::new(move || unframe::<Own>(&Message::new(MessageType::Reconnect, vec![1, 2, 3])).map(|o| format!("{:?}", o).into_bytes()).map_err(e)),
    ));
    v.push(("a frame of converted contents".into(), Box::new(move || serialize(&Message::new(MessageType::Reconnect, Own(0x102, 3))).map_err(e))));
    v.push(("a byte field of converted contents".into(), Box::new(move || B0_255::new(Own(0x102, 3)).and_then(|b| serialize(&b)).map_err(e))));
    v.push(("a string of converted contents".into(), Box::new(move || STR0_255::new(Own(0x102, 3)).and_then(|b| serialize(&b)).map_err(e))));
    v
}

/// Does this on a thread of its own; an error if it has not ended after so many seconds.
fn within<T: Send + 'static>(s: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    let t = std::thread::spawn(move || {
        let _ = tx.send(f());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(s)) {
        Ok(x) => {
            let _ = t.join();
            Some(x)
        }
        Err(_) => None,
    }
}

/// Operations made as a thread ends, when its locals are being destroyed.
struct AtExit(std::cell::RefCell<Option<Box<dyn FnOnce()>>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        if let Some(f) = self.0.borrow_mut().take() {
            f()
        }
    }
}
thread_local! {
    static AT_EXIT: AtExit = const { AtExit(std::cell::RefCell::new(None)) };
}

struct NoCrypto;
impl Encryptor for NoCrypto {
    fn is_handshake_complete(&self) -> bool {
        false
    }
    fn recv_handshake(&mut self, _: &mut [u8]) -> Result<Vec<u8>, stratumv2::error::Error> {
        Ok(vec![])
    }
    fn init_handshake(&mut self) -> Result<Vec<u8>, stratumv2::error::Error> {
        Ok(vec![])
    }
    fn encrypt_message(_: &[u8]) -> Vec<u8> {
        vec![]
    }
    fn decrypt_message(_: &[u8]) -> Vec<u8> {
        vec![]
    }
}

/// A whole exchange between two sessions; its bytes, and what each end knows.
fn exchange(c: &Conn) -> Result<Vec<u8>, String> {
    let mut s = Live::new(c);
    let mut out = vec![];
    for k in 0..STEPS {
        out.extend(s.step(k));
    }
    Ok(out)
}

fn operations() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, run: Box<dyn Fn() -> Result<Vec<u8>, String> + Send + Sync>| v.push(Op { name, run });
    for k in all_kinds() {
        let tag = tags(&k)[tags(&k).len() - 1];
        for (which, vals) in [("base", base_vals(&k, tag)), ("extreme", extreme_vals(&k, tag))] {
            if !valid(&k.schema, &vals) {
                continue;
            }
            let wire = ref_encode(&k.schema, &vals);
            let name = k.name;
            {
                let (k, vals, wire) = (kind(name), vals.clone(), wire.clone());
                add(
                    format!("encode {} {}", which, name),
                    Box::new(move || match k.ops.encode_fn(&vals) {
                        Ok(Ok(b)) if b == wire => Ok(b),
                        Ok(Ok(b)) => Err(format!("{} is encoded as {} instead of {}", name, short_hex(&b), short_hex(&wire))),
                        Ok(Err(e)) => Err(format!("{} cannot be encoded: {}", name, e)),
                        Err(e) => Err(format!("{} cannot be built: {}", name, e)),
                    }),
                );
            }
            {
                let (k, wire, vals) = (kind(name), wire.clone(), vals.clone());
                add(
                    format!("decode {} {}", which, name),
                    Box::new(move || match k.ops.decode_fn(&wire) {
                        Ok(Ok(x)) if x == vals => Ok(show_vals(&x).into_bytes()),
                        Ok(Ok(x)) => Err(format!("{} is decoded as {}", name, show_vals(&x))),
                        Ok(Err(e)) => Err(format!("{} cannot be decoded: {}", name, e)),
                        Err(e) => Err(format!("{}: {}", name, e)),
                    }),
                );
            }
            if which == "base" {
                if wire.len() > 1 {
                    let (k, w) = (kind(name), wire[..wire.len() - 1].to_vec());
                    add(
                        format!("decode cut {}", name),
                        Box::new(move || match k.ops.decode_fn(&w) {
                            Ok(Ok(_)) => Err(format!("a cut {} is decoded", name)),
                            Ok(Err(e)) => Ok(format!("{}", e).into_bytes()),
                            Err(e) => Err(e),
                        }),
                    );
                    let (k, vals, n) = (kind(name), vals.clone(), wire.len() / 2);
                    add(
                        format!("encode {} into a failing sink", name),
                        Box::new(move || {
                            let mut w = Fails { left: n, got: vec![] };
                            match k.ops.encode(&vals, &mut w) {
                                Ok(Err(e)) => {
                                    w.got.extend(format!(" {}", e).into_bytes());
                                    Ok(w.got)
                                }
                                Ok(Ok(_)) => Err(format!("{}: a failure of the sink is not reported", name)),
                                Err(e) => Err(format!("{} cannot be built: {}", name, e)),
                            }
                        }),
                    );
                }
                if k.framed.is_some() {
                    let (k, vals) = (kind(name), vals.clone());
                    add(
                        format!("frame and unframe {}", name),
                        Box::new(move || {
                            let f = &k.framed.as_ref().unwrap().1;
                            let m = match f.frame(&vals) {
                                Ok(Ok(m)) => m,
                                _ => return Err(format!("{} cannot be framed", name)),
                            };
                            match f.unframe(&m)? {
                                Ok(x) if x == vals => serialize(&m).map_err(|e| e.to_string()),
                                Ok(x) => Err(format!("{} comes out of its frame as {}", name, show_vals(&x))),
                                Err(e) => Err(format!("{} cannot be unframed: {}", name, e)),
                            }
                        }),
                    );
                }
            }
        }
    }
    // What a peer may send that must be refused.
    for k in all_kinds() {
        let mut seen: Vec<&'static str> = vec![];
        for tag in tags(&k) {
            let base = ref_encode(&k.schema, &base_vals(&k, tag));
            let mut bad: Vec<Vec<u8>> = vec![vec![]];
            for p in 0..base.len().min(400) {
                for x in [0xffu8, 0, base[p] ^ 0x80] {
                    let mut w = base.clone();
                    w[p] = x;
                    bad.push(w);
                }
            }
            for w in bad {
                let mut c = Ctx::default();
                let why = match ref_decode(0, &k.schema, &w, &mut c) {
                    Err(e) => e,
                    Ok(_) => continue,
                };
                if seen.iter().filter(|x| **x == why).count() == 2 {
                    continue;
                }
                seen.push(why);
                let (k, name) = (kind(k.name), k.name);
                add(
                    format!("refuse {} ({}, {})", name, why, short_hex(&w)),
                    Box::new(move || match k.ops.decode_fn(&w) {
                        Ok(Ok(x)) => Err(format!("{} is decoded as {}", short_hex(&w), show_vals(&x))),
                        Ok(Err(e)) => Ok(format!("{}", e).into_bytes()),
                        Err(e) => Err(e),
                    }),
                );
            }
        }
    }
    for n in 0..3usize {
        add(
            format!("refuse message {}", n),
            Box::new(move || {
                let mut s = Live::new(&CONNS[0]);
                for k in 0..5 {
                    s.step(k);
                }
                // A forged one, an altered one, a reflected one.
                let mut b = match n {
                    0 => pattern(3, 50),
                    _ => s.wire.clone(),
                };
                b[3] ^= (n == 1) as u8;
                let to = if n == 2 { 0 } else { 1 };
                if s.end[to].recv_message(&mut b).is_ok() {
                    return Err("a forged message is accepted".into());
                }
                Ok(b)
            }),
        );
        add(
            format!("refuse reply {}", n),
            Box::new(move || {
                let mut s = Live::new(&CONNS[0]);
                for k in 0..3 {
                    s.step(k);
                }
                let at = [5, 40, 130][n];
                s.wire[at] ^= 1;
                let ok = s.end[0].recv_message(&mut s.wire).is_ok();
                if ok || s.end[0].is_transport() {
                    return Err("an altered reply is accepted".into());
                }
                Ok(vec![])
            }),
        );
        add(
            format!("refuse opening {}", n),
            Box::new(move || {
                let mut r = session(false, b"p", 2, 4);
                let mut m = vec![0u8; [100, 31, 15][n]];
                let ok = r.recv_message(&mut m).is_ok() || r.send_message(&mut [0u8; 128]).is_ok();
                if ok {
                    return Err("a degenerate or cut opening is accepted".into());
                }
                Ok(vec![])
            }),
        );
    }
    // Certificates.
    for (n, auth, key, from, until, now) in [(0, 1, 2, 100, 200, 150), (1, 2, 2, 100, 200, 150), (2, 1, 3, 100, 200, 150), (3, 1, 2, 100, 200, 200), (4, 1, 2, 160, 200, 150), (5, 1, 2, 0, u32::MAX, 150)] {
        add(
            format!("verify certificate {}", n),
            Box::new(move || {
                // Issued by authority 1 for the key of pair 2; n = 1: other authority, 2: other key, 3, 4: outside the window.
                let m = signed(1, 0, from, until, &pair(2).get_public_key().as_bytes());
                let k = pair(key).get_public_key();
                let text = authority_text(auth);
                let ok = clock::at(now, 0, || CertificateFormat::new(&text, &k, &m).and_then(|c| c.verify()).is_ok());
                if ok != (n == 0 || n == 5) {
                    return Err(format!("certificate {}: {}", n, if ok { "verifies" } else { "does not verify" }));
                }
                Ok(vec![ok as u8])
            }),
        );
    }
    for (a, v, n) in [(1u64, 0u16, 2u64), (2, 0, 2), (1, 0, 3), (1, 1, 2)] {
        add(
            format!("authority {} signs certificate {}.{}", a, v, n),
            Box::new(move || {
                let k = StaticPublicKey::from_bytes(pair(n).get_public_key().as_bytes()).map_err(|e| e.to_string())?;
                let c = SignedCertificate::new(v, 100, 200, &k).map_err(|e| e.to_string())?;
                let m = SignatureNoiseMessage::from_auth_key(&authority(a), &c).map_err(|e| e.to_string())?;
                let ok: Vec<u8> = (1..3).map(|b| clock::at(150, 0, || CertificateFormat::new(&authority_text(b), &k, &m).and_then(|c| c.verify()).is_ok()) as u8).collect();
                if ok[a as usize - 1] != 1 || ok[2 - a as usize] != 0 {
                    return Err(format!("what authority {} signs verifies as {:?} under the two authorities", a, ok));
                }
                Ok(ok)
            }),
        );
    }
    add(
        "decode and check a certificate message".into(),
        Box::new(|| {
            let m = signed(1, 0, 100, 200, &pair(2).get_public_key().as_bytes());
            let w = serialize(&m).map_err(|e| e.to_string())?;
            let d: SignatureNoiseMessage = deserialize(&w).map_err(|e| e.to_string())?;
            Ok(show(Ok(d), |d| format!("{:?}", d).into_bytes()))
        }),
    );
    // Keys.
    for (n, t) in [hex::encode(secret(4)), hex::encode([0u8; 32]), "zz".repeat(32), "ab".repeat(31)].into_iter().enumerate() {
        add(
            format!("read key text {}", n),
            Box::new(move || {
                let a = PublicKey::from_str(&t).map(|k| k.as_bytes()).map_err(|e| e.to_string());
                let b = PrivateKey::from_str(&t).and_then(|k| Keypair::from_private_key(k)).map(|k| k.get_public_key().as_bytes()).map_err(|e| e.to_string());
                if a.is_ok() != (n == 0) || b.is_ok() != (n == 0) {
                    return Err(format!("key text {}: {:?} {:?}", n, a, b));
                }
                Ok(format!("{:?} {:?}", a, b).into_bytes())
            }),
        );
    }
    for n in 0..3u64 {
        add(
            format!("make key pair {}", n),
            Box::new(move || {
                let p = pair(40 + n).get_public_key().as_bytes();
                let mut nine = [0u8; 32];
                nine[0] = 9;
                if p != crate::refprims::x25519(&secret(40 + n), &nine) {
                    return Err("a key pair has another key's public key".into());
                }
                Ok(p.to_vec())
            }),
        );
    }
    // Sessions.
    for c in CONNS {
        add(format!("exchange {:?}", c), Box::new(move || exchange(&c)));
    }
    add(
        "refused handshake".into(),
        Box::new(|| {
            let mut i = session(true, b"p", 1, 3);
            let mut r = session(false, b"q", 2, 4);
            let mut m = pattern(1, 128);
            let mut out = vec![];
            let ok = [i.send_message(&mut m).is_ok(), r.recv_message(&mut m).is_ok(), r.send_message(&mut m).is_ok()];
            out.extend(&m);
            if ok != [true; 3] || i.recv_message(&mut m).is_ok() {
                return Err("ends with different prologues complete a handshake".into());
            }
            Ok(out)
        }),
    );
    add(
        "refused message".into(),
        Box::new(|| {
            let c = CONNS[0];
            let mut s = Live::new(&c);
            for k in 0..5 {
                s.step(k);
            }
            let mut b = pattern(3, 50);
            let a = s.end[1].recv_message(&mut b).is_ok();
            let mut out: Vec<u8> = vec![a as u8];
            out.extend(s.step(5));
            Ok(out)
        }),
    );
    // A queue.
    add(
        "queue and drain".into(),
        Box::new(|| {
            let p = Peer::new(NoCrypto);
            if !p.get_pending_msgs().is_empty() {
                return Err("a new connection's queue is not empty".into());
            }
            let t = crate::message_types();
            for n in 0..3usize {
                p.pending_msg_buffer.lock().map_err(|_| "the queue cannot be locked")?.push(Message::new(t[n], vec![n as u8; 3]));
            }
            let got = p.get_pending_msgs();
            let want: Vec<Message> = (0..3usize).map(|n| Message::new(t[n], vec![n as u8; 3])).collect();
            if got != want {
                return Err(format!("a queue gives {:?} for {:?}", got, want));
            }
            p.pending_msg_buffer.lock().map_err(|_| "the queue cannot be locked")?.push(Message::new(t[3], vec![9]));
            Ok(vec![got.len() as u8])
        }),
    );
    add(
        "a connection's handshake".into(),
        Box::new(|| {
            let mut o = ConnectionEncryptor::new_outbound();
            let mut i = ConnectionEncryptor::new_inbound(Some(pair(7)));
            let e = |x: stratumv2::error::Error| format!("a connection's handshake does not complete: {}", x);
            if o.is_handshake_complete() || i.is_handshake_complete() || o.get_remote_pubkey().is_some() {
                return Err("a new encryptor is complete".into());
            }
            let mut a = o.init_handshake().map_err(e)?;
            let mut b = i.recv_handshake(&mut a).map_err(e)?;
            o.recv_handshake(&mut b).map_err(e)?;
            if o.get_remote_pubkey().map(|k| k.as_bytes()) != Some(pair(7).get_public_key().as_bytes()) {
                return Err("an outbound end reports another key than its peer's".into());
            }
            Ok(vec![a.len() as u8])
        }),
    );
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Conn {
    prologue: u8,
    statics: (u64, u64),
    eph: (u64, u64),
    seed: u64,
}
const CONNS: [Conn; 5] = [
    Conn { prologue: 0, statics: (1, 2), eph: (3, 4), seed: 1 },
    // The same but for the contents.
    Conn { prologue: 0, statics: (1, 2), eph: (3, 4), seed: 2 },
    // Other keys.
    Conn { prologue: 0, statics: (21, 22), eph: (23, 24), seed: 1 },
    // Another prologue.
    Conn { prologue: 1, statics: (1, 2), eph: (3, 4), seed: 1 },
    // The same parties, new ephemeral keys.
    Conn { prologue: 0, statics: (1, 2), eph: (33, 34), seed: 1 },
];
const STEPS: usize = 8;

/// Two ends of a connection.
struct Live {
    c: Conn,
    end: [NoiseSession; 2],
    wire: Vec<u8>,
}
impl Live {
    fn new(c: &Conn) -> Live {
        let p: &[u8] = if c.prologue == 0 { b"mc" } else { b"other prologue" };
        Live { c: *c, end: [session(true, p, c.statics.0, c.eph.0), session(false, p, c.statics.1, c.eph.1)], wire: vec![] }
    }
    /// A, B, and a message each way; what the step shows.
    fn step(&mut self, k: usize) -> Vec<u8> {
        let from = [0, 1, 0, 1, 0, 1][k / 2];
        let n = [100, 140, 60, 61, 62, 63][k / 2];
        let ok = if k % 2 == 0 {
            self.wire = pattern(self.c.seed * 100 + k as u64, n);
            self.end[from].send_message(&mut self.wire).is_ok()
        } else {
            self.end[1 - from].recv_message(&mut self.wire).is_ok()
        };
        let mut out = self.wire.clone();
        out.push(ok as u8);
        for e in &self.end {
            out.extend(format!("{:?}", (e.is_transport(), e.get_message_count(), e.get_handshake_hash(), e.get_remote_static_public_key().map(|k| k.as_bytes()))).bytes());
        }
        out
    }
}

/// Each step of a connection made on its own.
fn alone(c: &Conn) -> Vec<Vec<u8>> {
    let mut s = Live::new(c);
    (0..STEPS).map(|k| s.step(k)).collect()
}

/// On a thread of its own, so that nothing is left of earlier cases there.
fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    })
}

struct Moved(Live);
// Safety: only one thread uses it at a time (each is joined before the next starts).
unsafe impl Send for Moved {}

/// How often an operation that is refused is repeated before another one.
const REFUSALS: usize = 20;

/// One operation before each of the others, in a process of its own (state of the process that
/// other cases change cannot hide anything). 0: as on its own; 3: not, and what.
pub fn before_each(k: usize) -> i32 {
    let ops = operations();
    let run = |j: usize| guarded(|| (ops[j].run)()).and_then(|x| x);
    if k >= ops.len() {
        return 2;
    }
    // What the others give before the operation was ever made here.
    let expected: Vec<_> = (0..ops.len()).map(|j| fresh(|| run(j))).collect();
    let times = if ops[k].name.starts_with("refuse") { REFUSALS } else { 1 };
    for j in 0..ops.len() {
        let r = fresh(|| {
            for t in 0..times {
                let got = run(k);
                if got != expected[k] {
                    return Some(format!("\"{}\" the {}th time: {:?}, at first: {:?}", ops[k].name, t + 1, got, expected[k]));
                }
            }
            let got = run(j);
            if got != expected[j] {
                return Some(format!("\"{}\" after {} times \"{}\": {:?}, on its own: {:?}", ops[j].name, times, ops[k].name, got, expected[j]));
            }
            None
        });
        if let Some(t) = r {
            println!("{}", t.replace('\n', " ").chars().take(600).collect::<String>());
            return 3;
        }
    }
    0
}

pub fn c30(tier: Tier) -> Property {
    let mut f = vec![];
    let ops = Arc::new(operations());
    let n = ops.len();
    let expected: Arc<Vec<Result<Vec<u8>, String>>> = Arc::new(ops.iter().map(|o| fresh(|| guarded(|| (o.run)()).and_then(|x| x))).collect());
    let seq = {
        let (ops, expected) = (ops.clone(), expected.clone());
        move |ks: &[usize], ctx: &mut Ctx| -> Res {
            let r = fresh(|| {
                for (p, k) in ks.iter().enumerate() {
                    let got = (ops[*k].run)();
                    if got != expected[*k] || got.is_err() {
                        let t = |r: &Result<Vec<u8>, String>| match r {
                            Ok(b) => short_hex(b),
                            Err(e) => e.clone(),
                        };
                        return Err(format!(
                            "\"{}\" after {:?}: {}, on its own: {}",
                            ops[*k].name,
                            ks[..p].iter().map(|k| &ops[*k].name).collect::<Vec<_>>(),
                            t(&got),
                            t(&expected[*k])
                        ));
                    }
                }
                Ok(())
            });
            for k in ks {
                ctx.visit(h(&[30, *k as u64]));
            }
            r
        }
    };
    f.push(
        Family::new(
            "pairs of operations",
            n as u64,
            format!("every ordered pair of {} operations (codec, frames, certificates, keys, sessions, queues; accepted and refused), on a fresh thread of a process used for pairs with the same first operation only; a refused first operation {} times", n, REFUSALS),
            move |i, ctx| {
                let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
                let o = std::process::Command::new(&exe).args(["ops", &i.to_string()]).output().map_err(|e| format!("harness: {}", e))?;
                for j in 0..n as u64 {
                    ctx.visit(h(&[30, 6, i, j]));
                }
                ctx.traces += n as u64;
                match o.status.code() {
                    Some(0) => Ok(()),
                    Some(3) => Err(String::from_utf8_lossy(&o.stdout).trim().to_string()),
                    _ => Err(format!("a process that makes one operation many times ends badly ({:?}): {}", o.status, String::from_utf8_lossy(&o.stderr).lines().next().unwrap_or(""))),
                }
            },
        )
        .hang(300),
    );
    let few: Vec<usize> = (0..n).filter(|k| tier.thorough() && *k % 2 == 0 || *k % 10 == 0 || *k + 20 >= n).collect();
    let nf = few.len();
    {
        let seq = seq.clone();
        let few = few.clone();
        f.push(Family::new("triples of operations", (nf * nf * nf) as u64, format!("every ordered triple of {} of the operations", nf), move |i, ctx| {
            let mut r = Radix(i);
            seq(&[few[r.take(nf)], few[r.take(nf)], few[r.take(nf)]], ctx)
        }));
    }
    {
        let (ops, expected) = (ops.clone(), expected.clone());
        let (few, many) = tier.pick((3000u64, 70_000u64), (70_000, 1_000_000));
        f.push(
            Family::new("repetitions", n as u64, format!("every operation {} times in a row on one thread, or {} times if it makes keys, sessions or signatures or is of more than 4096 bytes", many, few), move |i, ctx| {
                let k = i as usize;
                let cheap = ["encode", "decode", "frame", "refuse "].iter().any(|s| ops[k].name.starts_with(s)) && !["refuse opening", "refuse message", "refuse reply", "decode and check"].iter().any(|s| ops[k].name.starts_with(s));
                // Long messages, too, so that the check stays within its time.
                let long = expected[k].as_ref().map_or(0, |b| b.len()) > 4096;
                let times = if cheap && !long { many } else { few };
                ctx.visit(h(&[30, k as u64]));
                ctx.transitions += times;
                fresh(|| {
                    for t in 0..times {
                        let got = (ops[k].run)();
                        if got != expected[k] || got.is_err() {
                            let t2 = |r: &Result<Vec<u8>, String>| match r {
                                Ok(b) => short_hex(b),
                                Err(e) => e.clone(),
                            };
                            return Err(format!("\"{}\" made {} times: {}, at first: {}", ops[k].name, t + 1, t2(&got), t2(&expected[k])));
                        }
                    }
                    Ok(())
                })
            })
            .hang(800),
        );
    }
    // Two connections at once, in every interleaving.
    let refs: Arc<Vec<Vec<Vec<u8>>>> = Arc::new(CONNS.iter().map(|c| fresh(|| alone(c))).collect());
    let il: Arc<Vec<u32>> = Arc::new((0u32..1 << 16).filter(|m| m.count_ones() == 8).collect());
    let ni = il.len();
    {
        let refs = refs.clone();
        f.push(Family::new("two connections", (ni * 5) as u64, "every interleaving of the eight steps of two connections, the second alike, with other contents, keys, prologue, or ephemeral keys", move |i, ctx| {
            let mut r = Radix(i);
            let mask = il[r.take(ni)];
            let which = [0, r.take(5)];
            let mut live = [Live::new(&CONNS[0]), Live::new(&CONNS[which[1]])];
            let mut at = [0, 0];
            for b in 0..16 {
                let x = (mask >> b & 1) as usize;
                let got = live[x].step(at[x]);
                ctx.visit(h(&[30, 1, which[1] as u64, at[0] as u64, at[1] as u64]));
                if got != refs[which[x]][at[x]] {
                    return Err(format!("step {} of connection {} ({:?}) differs when interleaved as {:016b} with {:?}", at[x], x, CONNS[which[x]], mask, CONNS[which[1 - x]]));
                }
                at[x] += 1;
            }
            Ok(())
        }));
    }
    // Three handshakes at once.
    let mut order: Vec<[u8; 12]> = vec![];
    fn rec(left: [u8; 3], so_far: &mut Vec<u8>, out: &mut Vec<[u8; 12]>) {
        if so_far.len() == 12 {
            out.push(core::array::from_fn(|i| so_far[i]));
            return;
        }
        for x in 0..3 {
            if left[x] > 0 {
                let mut l = left;
                l[x] -= 1;
                so_far.push(x as u8);
                rec(l, so_far, out);
                so_far.pop();
            }
        }
    }
    rec([4, 4, 4], &mut vec![], &mut order);
    let no = order.len();
    {
        let refs = refs.clone();
        f.push(Family::new("three handshakes", no as u64, "every interleaving of three handshakes", move |i, ctx| {
            let o = order[i as usize];
            let which = [0usize, 4, 2];
            let mut live: Vec<Live> = which.iter().map(|w| Live::new(&CONNS[*w])).collect();
            let mut at = [0usize; 3];
            for x in o {
                let x = x as usize;
                let got = live[x].step(at[x]);
                ctx.visit(h(&[30, 2, at[0] as u64, at[1] as u64, at[2] as u64]));
                if got != refs[which[x]][at[x]] {
                    return Err(format!("step {} of handshake {} differs in the order {:?}", at[x], x, o));
                }
                at[x] += 1;
            }
            Ok(())
        }));
    }
    // Other work in the gaps of a connection.
    {
        let (refs, ops, expected) = (refs.clone(), ops.clone(), expected.clone());
        f.push(Family::new("operations during a connection", (n * STEPS * 2) as u64, "each operation before each step of a connection, once or before every later step as well", move |i, ctx| {
            let mut r = Radix(i);
            let (k, at, on) = (r.take(n), r.take(STEPS), r.take(2) == 1);
            let mut l = Live::new(&CONNS[0]);
            for s in 0..STEPS {
                if s == at || on && s > at {
                    if (ops[k].run)() != expected[k] {
                        return Err(format!("\"{}\" before step {} of a connection gives something else than on its own", ops[k].name, s));
                    }
                }
                ctx.visit(h(&[30, 3, k as u64, s as u64]));
                if l.step(s) != refs[0][s] {
                    return Err(format!("step {} of a connection differs after \"{}\" at step {}", s, ops[k].name, at));
                }
            }
            Ok(())
        }));
    }
    // As many connections in one process as a counter of 16 bits counts sessions.
    {
        let refs = refs.clone();
        let many = tier.pick(33_000u64, 1_000_000);
        f.push(
            Family::new("very many connections", 2, format!("{} connections one after another in a process (five sorts of them), each step of each as on its own, an established one kept along and used every 256th time or only asked", many), move |i, ctx| {
                let mut kept = Live::new(&CONNS[0]);
                for s in 0..STEPS {
                    if kept.step(s) != refs[0][s] {
                        return Err(format!("step {} of the first connection differs", s));
                    }
                }
                let shown = |l: &Live| format!("{:?}", l.end.each_ref().map(|e| (e.is_transport(), e.get_handshake_hash(), e.get_remote_static_public_key().map(|k| k.as_bytes()))));
                let first = shown(&kept);
                for n in 0..many {
                    let w = (n % 5) as usize;
                    let mut l = Live::new(&CONNS[w]);
                    for s in 0..STEPS {
                        if l.step(s) != refs[w][s] {
                            return Err(format!("step {} of connection {:?} differs after {} others", s, CONNS[w], n + 1));
                        }
                    }
                    ctx.transitions += STEPS as u64;
                    if shown(&kept) != first {
                        return Err(format!("after {} other connections the first one shows {} instead of {}", n + 1, shown(&kept), first));
                    }
                    if n % 256 == 0 {
                        ctx.visit(h(&[30, 8, i, n]));
                        if i == 0 {
                            let t = pattern(n + 1, 40);
                            let mut b = t.clone();
                            b.resize(56, 0);
                            kept.end[0].send_message(&mut b).map_err(|e| format!("a message of the first connection after {} others: {:?}", n + 1, e))?;
                            kept.end[1].recv_message(&mut b).map_err(|e| format!("a message of the first connection after {} others: {:?}", n + 1, e))?;
                            if b[..40] != t[..] {
                                return Err(format!("a message of the first connection is changed after {} others", n + 1));
                            }
                        }
                    }
                }
                Ok(())
            })
            .hang(800),
        );
    }
    // A connection whose steps are made on changing threads.
    {
        let refs = refs.clone();
        f.push(Family::new("changing threads", 256 * 2, "every assignment of the steps of a connection to the own or a new thread, another connection running along or not", move |i, ctx| {
            let mut r = Radix(i);
            let (mask, along) = (r.take(256), r.take(2) == 1);
            let mut m = Moved(Live::new(&CONNS[0]));
            let mut other = Live::new(&CONNS[4]);
            for s in 0..STEPS {
                let got = if mask >> s & 1 == 1 {
                    let (x, g) = fresh(move || {
                        let mut m = m;
                        let g = { &mut m }.0.step(s);
                        (m, g)
                    });
                    m = x;
                    g
                } else {
                    m.0.step(s)
                };
                ctx.visit(h(&[30, 4, s as u64]));
                if got != refs[0][s] {
                    return Err(format!("step {} of a connection differs on threads {:08b}", s, mask));
                }
                if along && other.step(s) != refs[4][s] {
                    return Err(format!("step {} of a second connection differs on threads {:08b}", s, mask));
                }
            }
            Ok(())
        }));
    }
    // Operations while another is under way, in code of the caller's that it calls.
    let outer = Arc::new(outer_operations());
    let plain: Arc<Vec<Result<Vec<u8>, String>>> = Arc::new(outer.iter().map(|o| fresh(|| guarded(|| (o.1)()).and_then(|x| x))).collect());
    let no = outer.len();
    type Ops = Arc<Vec<Op>>;
    type Seen = Arc<std::sync::Mutex<Option<String>>>;
    fn all_as_alone(ops: &Ops, expected: &[Result<Vec<u8>, String>], seen: &Seen, how: &str) {
        for (k, o) in ops.iter().enumerate() {
            let got = guarded(|| (o.run)()).and_then(|x| x);
            if got != expected[k] {
                seen.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(|| format!("\"{}\" {} gives {:?}", o.name, how, got));
                return;
            }
        }
    }
    {
        let (ops, expected) = (ops.clone(), expected.clone());
        f.push(
            Family::new(
                "operations within operations",
                (no * 5) as u64,
                format!("every one of {} operations within each of {} others that call the caller's code (a sink at its first, middle and last write; an own message's encoding and decoding; a conversion of contents): there and then, on another thread meanwhile, or after the caller's code has panicked; and all of them as a thread ends", n, no),
                move |i, ctx| {
                    let mut r = Radix(i);
                    let (o, mode) = (r.take(no), r.take(5));
                    let seen: Seen = Default::default();
                    let panics = mode == 2;
                    for k in 0..n as u64 {
                        ctx.visit(h(&[30, 7, o as u64, mode as u64, k]));
                    }
                    let got = {
                        let (ops, expected, outer, seen) = (ops.clone(), expected.clone(), outer.clone(), seen.clone());
                        within(40, move || {
                            let how = [format!("while {}", outer[o].0), format!("on another thread while {}", outer[o].0), format!("after a panic of the caller's while {}", outer[o].0), "as a thread ends".into(), "as a thread ends".into()][mode].clone();
                            match mode {
                                0 | 1 => {
                                    let (ops, expected, seen) = (ops.clone(), expected.clone(), seen.clone());
                                    let run = move || match mode {
                                        0 => all_as_alone(&ops, &expected, &seen, &how),
                                        _ => {
                                            let (ops, expected, s, how2) = (ops.clone(), expected.clone(), seen.clone(), how.clone());
                                            if within(20, move || all_as_alone(&ops, &expected, &s, &how2)).is_none() {
                                                *seen.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("an operation {} does not end", how));
                                            }
                                        }
                                    };
                                    HOOK.with(|k| *k.borrow_mut() = Some(Box::new(run)));
                                    guarded(|| (outer[o].1)()).and_then(|x| x)
                                }
                                2 => {
                                    HOOK.with(|k| *k.borrow_mut() = Some(Box::new(|| std::panic::resume_unwind(Box::new("the caller's panic")))));
                                    let _ = guarded(|| (outer[o].1)());
                                    HOOK.with(|k| *k.borrow_mut() = None);
                                    all_as_alone(&ops, &expected, &seen, &how);
                                    fresh(|| all_as_alone(&ops, &expected, &seen, &how));
                                    guarded(|| (outer[o].1)()).and_then(|x| x)
                                }
                                // The operations before or after the library's own locals are made.
                                m => {
                                    let leave = {
                                        let (ops, expected, seen) = (ops.clone(), expected.clone(), seen.clone());
                                        move || AT_EXIT.with(|a| *a.0.borrow_mut() = Some(Box::new(move || all_as_alone(&ops, &expected, &seen, &how))))
                                    };
                                    let t = std::thread::spawn({
                                        let (outer, ops) = (outer.clone(), ops.clone());
                                        move || {
                                            let mut leave = Some(leave);
                                            if m == 3 {
                                                leave.take().unwrap()();
                                            }
                                            let got = guarded(|| (outer[o].1)()).and_then(|x| x);
                                            let k = o % ops.len();
                                            let _ = guarded(|| (ops[k].run)());
                                            if let Some(l) = leave {
                                                l();
                                            }
                                            got
                                        }
                                    });
                                    match t.join() {
                                        Ok(g) => g,
                                        Err(_) => Err("the thread ends with a panic".into()),
                                    }
                                }
                            }
                        })
                    };
                    if let Some(t) = seen.lock().unwrap_or_else(|e| e.into_inner()).take() {
                        return Err(t);
                    }
                    match got {
                        None => Err(format!("{} with other operations within it does not end", outer[o].0)),
                        Some(g) if g != plain[o] || g.is_err() => Err(format!("{} gives {:?} {} other operations, {:?} on its own", outer[o].0, g, if panics { "after a panic and" } else { "with" }, plain[o])),
                        Some(_) => Ok(()),
                    }
                },
            )
            .hang(120),
        );
    }
    let bad: Vec<String> = expected.iter().zip(ops.iter()).filter_map(|(e, o)| e.as_ref().err().map(|e| format!("\"{}\": {}", o.name, e))).collect();
    f.push(Family::new("each operation on its own", 1, "every operation gives what it must", move |_, ctx| {
        ctx.visit(h(&[30, 5]));
        match bad.first() {
            None => Ok(()),
            Some(b) => Err(b.clone()),
        }
    }));
    Property { families: f, assumptions: vec!["operations that draw random keys are compared by their outcome, not their bytes".into()] }
}

// ---------------------------------------------------------------- C31

/// Equality as the values define it: floats by value, anything else by content.
fn equal(fields: &[(&'static str, Ty)], a: &[Val], b: &[Val]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).zip(fields).all(|((x, y), (_, t))| match t {
            Ty::F32 => f32::from_bits(x.n() as u32) == f32::from_bits(y.n() as u32),
            _ => x == y,
        })
}

fn has_nan(fields: &[(&'static str, Ty)], a: &[Val]) -> bool {
    a.iter().zip(fields).any(|(x, (_, t))| matches!(t, Ty::F32) && f32::from_bits(x.n() as u32).is_nan())
}

/// The values of a kind that are compared with one another.
fn compared(k: &Kind, tag: u64, tier: Tier) -> Vec<Vec<Val>> {
    let fields = k.schema.fields(tag);
    let skip = if matches!(k.schema, Schema::Tagged(_)) { 1 } else { 0 };
    let mut out = vec![];
    for b in [base_vals(k, tag), extreme_vals(k, tag)] {
        out.push(b.clone());
        for i in skip..fields.len() {
            let mut d = small(&fields[i].1);
            d.extend(near(&b[i], &fields[i].1, tier));
            for x in d {
                let mut v = b.clone();
                v[i] = x;
                out.push(v);
            }
        }
    }
    out.retain(|v| valid(&k.schema, v));
    let mut seen = vec![];
    for v in out {
        if !seen.contains(&v) {
            seen.push(v);
        }
    }
    seen
}

/// Values that differ from this one in a single place.
fn near(v: &Val, t: &Ty, tier: Tier) -> Vec<Val> {
    let mut out = vec![];
    match v {
        Val::N(n) => {
            for b in 0..64 {
                out.push(Val::N(n ^ 1 << b));
            }
        }
        Val::B(b) => {
            let places: Vec<usize> = if tier.thorough() { (0..b.len()).collect() } else { (0..b.len()).filter(|i| *i < 3 || *i + 3 > b.len() || i % 8 == 0).collect() };
            for i in places {
                let mut x = b.clone();
                x[i] ^= if matches!(t, Ty::Str(_)) { 1 } else { 0x10 };
                out.push(Val::B(x));
            }
            for e in [0u8, b'x', b' '] {
                let mut x = b.clone();
                x.push(e);
                out.push(Val::B(x));
            }
            if !b.is_empty() {
                out.push(Val::B(b[..b.len() - 1].to_vec()));
                out.push(Val::B(b[1..].to_vec()));
            }
            if matches!(t, Ty::Str(_)) {
                out.push(Val::B(b.to_ascii_uppercase()));
                out.push(Val::B(b.to_ascii_lowercase()));
            }
        }
    }
    out.retain(|x| fits(t, x));
    out
}

/// Both ways of comparing, and both of denying, agree with what is expected.
macro_rules! agree {
    ($a:expr, $b:expr, $want:expr, $what:expr) => {
        if ($a == $b) != $want || ($b == $a) != $want || ($a != $b) == $want || ($b != $a) == $want {
            return Err(format!("{}: comparison says {}, contents say {}", $what, !$want, $want));
        }
    };
}

macro_rules! vs_bytes {
    ($t:ty, $name:expr, $set:expr, $ctx:expr) => {
        for a in $set.iter() {
            let x = match <$t>::new(a.clone()) {
                Ok(x) => x,
                Err(e) => return Err(format!("{} refuses {} bytes: {}", $name, a.len(), e)),
            };
            let back: Vec<u8> = x.clone().into();
            if &back != a {
                return Err(format!("{} of {} becomes {}", $name, short_hex(a), short_hex(&back)));
            }
            for b in $set.iter() {
                $ctx.visit(h(&[31, 2, a.len() as u64, b.len() as u64]));
                agree!(x, b.clone(), a == b, format!("{} {} and bytes {}", $name, short_hex(a), short_hex(b)));
            }
        }
    };
}
macro_rules! vs_text {
    ($t:ty, $name:expr, $set:expr, $ctx:expr) => {
        for a in $set.iter() {
            let x = match <$t>::new(a.clone()) {
                Ok(x) => x,
                Err(e) => return Err(format!("{} refuses {:?}: {}", $name, a, e)),
            };
            let back: String = x.clone().into();
            if &back != a {
                return Err(format!("{} of {:?} becomes {:?}", $name, a, back));
            }
            for b in $set.iter() {
                $ctx.visit(h(&[31, 3, a.len() as u64, b.len() as u64]));
                agree!(x, b.clone(), a == b, format!("{} {:?} and text {:?}", $name, a, b));
            }
        }
    };
}

fn byte_set(max: usize) -> Vec<Vec<u8>> {
    let mut s: Vec<Vec<u8>> = vec![vec![]];
    let b = data(max.min(300), 2);
    for n in [1, 2, 3, max.min(300) / 2, max.min(300) - 1, max.min(300)] {
        let x = b[..n].to_vec();
        s.push(x.clone());
        for i in 0..n {
            let mut y = x.clone();
            y[i] ^= 1 << (i % 8);
            s.push(y);
        }
        s.push(vec![0; n]);
    }
    if max >= 65535 {
        for n in [65535usize, 65536, 70000] {
            if n <= max {
                let mut x = data(n, 2);
                s.push(x.clone());
                x[n - 1] ^= 1;
                s.push(x);
            }
        }
    }
    s.sort();
    s.dedup();
    s
}

fn text_set(max: usize) -> Vec<String> {
    let mut s: Vec<String> = vec!["".into(), "a".into(), "A".into(), " a".into(), "a ".into(), "a\0".into(), "\0".into(), " ".into(), "\u{e9}".into(), "e\u{301}".into(), "\u{df}".into(), "ss".into()];
    let b: String = "abcdefghijklmnopqrstuvwxyz0123456789".chars().cycle().take(max).collect();
    for n in [2, 3, max / 2, max - 1, max] {
        let x = b[..n].to_string();
        s.push(x.to_uppercase());
        for i in 0..n {
            let mut y = x.clone().into_bytes();
            y[i] ^= 3;
            s.extend(String::from_utf8(y));
        }
        s.push(x);
    }
    s.sort();
    s.dedup();
    s
}

pub fn c31(tier: Tier) -> Property {
    let mut f = vec![];
    for k in all_kinds() {
        let name = k.name;
        if !k.ops.has_eq() {
            continue;
        }
        for tag in tags(&k) {
            let set = Arc::new(compared(&k, tag, tier));
            let n = set.len();
            let k = kind(name);
            f.push(Family::new(format!("{}[{}]", name, tag), (n * n) as u64, format!("every ordered pair of {} values", n), move |i, ctx| {
                let mut r = Radix(i);
                let (a, b) = (&set[r.take(n)], &set[r.take(n)]);
                let fields = k.schema.fields(tag);
                if has_nan(&fields, a) || has_nan(&fields, b) {
                    ctx.uncounted = true;
                    return Ok(());
                }
                ctx.visit(h(&[31, k.id, i]));
                let want = equal(&fields, a, b);
                match k.ops.equal(a, b) {
                    Ok(got) if got == want => Ok(()),
                    Ok(got) => Err(format!("{}: {} and {} are {}", name, show_vals(a), show_vals(b), if got { "equal" } else { "unequal" })),
                    Err(e) => Err(format!("{}: a valid value cannot be built: {}", name, e)),
                }
            }));
        }
    }
    for k in all_kinds() {
        let name = k.name;
        for tag in tags(&k) {
            let fields = k.schema.fields(tag);
            let mut set = compared(&k, tag, tier);
            let b = base_vals(&k, tag);
            for (i, (_, t)) in fields.iter().enumerate() {
                if matches!(t, Ty::Str(_) | Ty::Bytes { .. }) {
                    for c in contents() {
                        let mut v = b.clone();
                        v[i] = Val::B(c.clone());
                        set.push(v);
                    }
                    if let Ty::Bytes { max, .. } = t {
                        for p in 0..=16 {
                            for n in [(1usize << p) - 1, 1 << p, (1 << p) + 1, 3 << p] {
                                if n <= *max {
                                    let mut v = b.clone();
                                    v[i] = Val::B(data(n, 2));
                                    set.push(v);
                                }
                            }
                        }
                    }
                }
            }
            set.retain(|v| valid(&k.schema, v));
            let k = kind(name);
            f.push(Family::new(format!("copies of {}[{}]", name, tag), set.len() as u64, "each value's copy, and the copy of the copy, equals it, reads the same and encodes the same", move |i, ctx| {
                let v = &set[i as usize];
                ctx.visit(h(&[31, 20, k.id, i]));
                let mut first: Option<Vec<u8>> = None;
                let copies = k.ops.copied(v).map_err(|e| format!("{} {}: {}", name, show_vals(v), e))?;
                for (n, (w, b)) in copies.into_iter().flatten().enumerate() {
                    ctx.transitions += 1;
                    if n > 0 && w != *v {
                        return Err(format!("the copy of {} {} is {}", name, show_vals(v), show_vals(&w)));
                    }
                    match &first {
                        Some(x) if *x != b => return Err(format!("the copy of {} {} encodes to {}", name, show_vals(v), short_hex(&b))),
                        _ => first = Some(b),
                    }
                }
                Ok(())
            }));
        }
    }
    f.push(Family::new("byte fields and plain bytes", 5, "every pair of a byte field and plain bytes that differ in one byte, length or not at all; and conversion to plain bytes", |n, ctx| {
        let max = [31, 32, 255, 65535, 70_000][n as usize];
        let s = byte_set(max);
        match n {
            0 => vs_bytes!(B0_31, "B0_31", s, ctx),
            1 => vs_bytes!(B0_32, "B0_32", s, ctx),
            2 => vs_bytes!(B0_255, "B0_255", s, ctx),
            3 => vs_bytes!(B0_64K, "B0_64K", s, ctx),
            _ => vs_bytes!(B0_16M, "B0_16M", s, ctx),
        }
        Ok(())
    }).hang(200));
    f.push(Family::new("strings and plain text", 2, "every pair of a string and plain text that differ in one character, case, length or not at all; and conversion to plain text", |n, ctx| {
        if n == 0 {
            vs_text!(STR0_32, "STR0_32", text_set(32), ctx)
        } else {
            vs_text!(STR0_255, "STR0_255", text_set(255), ctx)
        }
        Ok(())
    }));
    // 24-bit numbers.
    let mut nums: Vec<u32> = (0..40).chain((0..32).flat_map(|b| [(1u32 << b) - 1, 1 << b, (1 << b) | 1])).chain([0x010203, 0x030201, 0x01010203, 0xff010203, 0x01000001, u32::MAX, 0xfffffe]).collect();
    nums.sort();
    nums.dedup();
    let nn = nums.len();
    f.push(Family::new("24-bit and plain numbers", (nn * nn) as u64, "every pair of a 24-bit number and a 32-bit number around every power of two; and all conversions", move |i, ctx| {
        let mut r = Radix(i);
        let (a, b) = (nums[r.take(nn)], nums[r.take(nn)]);
        ctx.visit(h(&[31, 4, a as u64, b as u64]));
        let fits = a < 1 << 24;
        let all = [U24::new(a).ok(), U24::try_from(a).ok(), U24::try_from(a as usize).ok()];
        for u in all {
            match u {
                None if !fits => {}
                None => return Err(format!("{} is no 24-bit number", a)),
                Some(_) if !fits => return Err(format!("{} is a 24-bit number", a)),
                Some(u) => {
                    agree!(u, b, a == b, format!("U24 {} and {}", a, b));
                    if u32::from(u.clone()) != a || usize::from(u) != a as usize {
                        return Err(format!("the 24-bit number {} changes when converted", a));
                    }
                }
            }
        }
        Ok(())
    }));
    f.push(Family::new("every 24-bit number", 1 << 24, "each converts to itself and equals itself, not its neighbours", move |i, ctx| {
        let n = i as u32;
        ctx.transitions += 1;
        let u = U24::try_from(n).map_err(|e| format!("{} is no 24-bit number: {}", n, e))?;
        if u32::from(u.clone()) != n || usize::from(u.clone()) != n as usize || !(u == n) || u == n ^ 1 || u == n | 1 << 24 {
            return Err(format!("the 24-bit number {} is not itself", n));
        }
        Ok(())
    }));
    // 256-bit numbers.
    f.push(Family::new("256-bit numbers", 256 * 3, "each single-bit difference from three values", |i, ctx| {
        let mut r = Radix(i);
        let bit = r.take(256);
        let a: [u8; 32] = [[0; 32], [0xff; 32], core::array::from_fn(|i| i as u8 * 7 + 1)][r.take(3)];
        let mut b = a;
        b[bit / 8] ^= 1 << (bit % 8);
        ctx.visit(h(&[31, 5, i]));
        let x = U256::from(a);
        agree!(x, a, true, "U256 and its bytes");
        agree!(x, b, false, format!("U256 and bytes that differ in bit {}", bit));
        agree!(x, U256::from(b), false, format!("U256 values that differ in bit {}", bit));
        if <[u8; 32]>::from(x) != a {
            return Err("a U256 changes when converted".into());
        }
        Ok(())
    }));
    // Keys.
    let runs = [0u8, 0xff, 0x20];
    f.push(Family::new("keys", 256 * (2 + 32 * 4 * 3), "public keys, private keys and pairs that differ in one bit or not at all, without a pattern or with a run of one to four bytes of zeros, ones or blanks at every place", move |i, ctx| {
        let mut r = Radix(i);
        let bit = r.take(256);
        let base = r.take(2 + 32 * 4 * 3);
        let mut a = secret(if base == 1 { 901 } else { 900 });
        if base >= 2 {
            let mut r = Radix(base as u64 - 2);
            let (at, n, x) = (r.take(32), r.take(4), runs[r.take(3)]);
            a[at..32.min(at + n + 1)].fill(x);
        }
        let mut b = a;
        b[bit / 8] ^= 1 << (bit % 8);
        ctx.visit(h(&[31, 6, i]));
        let (x, y) = (PrivateKey::from_bytes(a), PrivateKey::from_bytes(b));
        agree!(x, PrivateKey::from_bytes(a), true, "equal private keys");
        agree!(x, y, false, format!("private keys that differ in bit {}", bit));
        let (p, q) = (Keypair::from_private_key(x).map_err(|e| e.to_string())?, Keypair::from_private_key(y).map_err(|e| e.to_string())?);
        agree!(p, p.clone(), true, "equal pairs");
        if p.clone().get_public_key().as_bytes() != p.get_public_key().as_bytes() || PrivateKey::from_bytes(a).clone() != PrivateKey::from_bytes(a) {
            return Err("the copy of a key differs".into());
        }
        agree!(p, q, false, format!("pairs whose private keys differ in bit {}", bit));
        let k = StaticPublicKey::from_bytes(a).map_err(|e| e.to_string())?;
        agree!(k, StaticPublicKey::from_bytes(a).map_err(|e| e.to_string())?, true, "equal public keys");
        agree!(k, StaticPublicKey::from_bytes(b).map_err(|e| e.to_string())?, false, format!("public keys that differ in bit {}", bit));
        // Noise's own public keys, the last bit of which X25519 does not look at.
        let (k, l) = (PublicKey::from_bytes(a), PublicKey::from_bytes(b));
        match (k, l) {
            (Ok(k), Ok(l)) => {
                if k.as_bytes() != a || l.as_bytes() != b {
                    return Err("the bytes of a public key change".into());
                }
                agree!(k, PublicKey::from_bytes(a).map_err(|e| e.to_string())?, true, "equal public keys of a session");
                agree!(k, l, false, format!("public keys of a session that differ in bit {}", bit));
            }
            (x, y) => return Err(format!("a public key is refused: {:?} {:?}", x.err(), y.err())),
        }
        Ok(())
    }));
    // Long contents: a difference anywhere counts.
    let mut lens: Vec<usize> = (0..=tier.pick(16u32, 24)).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).chain([10, 100, 1000, 10_000, 65_519, 100_000]).chain(if tier.thorough() { vec![] } else { vec![(1 << 20) - 1, 1 << 20, (1 << 20) + 1] }).collect();
    lens.retain(|n| *n < 1 << 24);
    lens.push((1 << 24) - 1);
    lens.sort();
    lens.dedup();
    let nl = lens.len();
    f.push(Family::new("long contents", (nl * 4) as u64, "frames, byte fields, strings of lengths around every power of two that differ in one byte (the first, the last, the middle one, one at each power of two from either end) or in length or not at all", move |i, ctx| {
        let mut r = Radix(i);
        let (n, what) = (lens[r.take(nl)], r.take(4));
        let a = pattern(n as u64 + 1, n);
        let mut at: Vec<usize> = [0, n / 2, n.saturating_sub(1)].into_iter().chain((0..24).flat_map(|b| [1usize << b, (1 << b) - 1, n.wrapping_sub(1 << b)])).filter(|p| *p < n).collect();
        at.sort();
        at.dedup();
        let t = MessageType::SetupConnection;
        let mut cmp = |b: Vec<u8>, same: bool, how: String| -> Res {
            ctx.visit(h(&[31, 8, i, b.len() as u64]));
            macro_rules! field {
                ($t:ident) => {
                    match ($t::new(a.clone()), $t::new(b.clone())) {
                        (Ok(x), Ok(y)) => {
                            agree!(x, y, same, format!("{} values of {} bytes {}", stringify!($t), n, how));
                            if same && (x.clone().data != b || usize::from(x.clone().length) != n) {
                                return Err(format!("the copy of a {} of {} bytes differs", stringify!($t), n));
                            }
                            agree!(x, b, same, format!("a {} value and {} bytes {}", stringify!($t), n, how));
                        }
                        _ => (),
                    }
                };
            }
            match what {
                0 => {
                    let m = Message::new(t, a.clone());
                    agree!(m, Message::new(t, b.clone()), same, format!("frames with payloads of {} bytes {}", n, how));
                    if same && m.clone().payload != b {
                        return Err(format!("the copy of a frame with a payload of {} bytes differs", n));
                    }
                }
                1 => field!(B0_64K),
                2 => field!(B0_16M),
                _ => {
                    let text = |b: &[u8]| b.iter().map(|b| (b' ' + b % 90) as char).collect::<String>();
                    let (x, y) = (text(&a), text(&b));
                    let same = x == y;
                    macro_rules! s {
                        ($t:ident) => {
                            if let (Ok(v), Ok(w)) = ($t::new(x.clone()), $t::new(y.clone())) {
                                agree!(v, w, same, format!("{} values of {} bytes {}", stringify!($t), n, how));
                                agree!(v, y, same, format!("a {} value and {} bytes {}", stringify!($t), n, how));
                            }
                        };
                    }
                    s!(STR0_32);
                    s!(STR0_255);
                }
            }
            Ok(())
        };
        cmp(a.clone(), true, "that are the same".into())?;
        for p in at {
            let mut b = a.clone();
            b[p] ^= 1;
            cmp(b, false, format!("that differ at {}", p))?;
        }
        if n > 0 {
            cmp(a[..n - 1].to_vec(), false, "and one fewer".into())?;
        }
        let mut b = a.clone();
        b.push(0);
        cmp(b, false, "and one more".into())
    }).hang(200));
    let t = crate::message_types();
    f.push(Family::new("message types", 27 * 27, "every pair of message types", move |i, ctx| {
        let mut r = Radix(i);
        let (a, b) = (r.take(27), r.take(27));
        ctx.visit(h(&[31, 7, i]));
        agree!(t[a], t[b], a == b, format!("message types {:?} and {:?}", t[a], t[b]));
        for (x, y) in [(vec![], vec![]), (vec![1], vec![1]), (vec![1], vec![2]), (vec![1], vec![1, 0])] {
            agree!(Message::new(t[a], x.clone()), Message::new(t[b], y.clone()), a == b && x == y, format!("frames of types {:?} and {:?} with payloads {:?} and {:?}", t[a], t[b], x, y));
        }
        Ok(())
    }));
    Property { families: f, assumptions: vec!["floating point fields are compared by IEEE rules; values with NaN are left out".into()] }
}
