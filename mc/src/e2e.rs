//! C28: the whole start-up of a connection under a meddling network and impostor servers.

use crate::cert_props::{authority_text, signed};
use crate::clock;
use crate::duo::{pair, pattern};
use crate::engine::*;
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::OnceLock;
use stratumv2::codec::{deserialize, frame, serialize, unframe, Frameable, Message};
use stratumv2::common::{SetupConnection, SetupConnectionErrorCode};
use stratumv2::error::Error;
use stratumv2::network::{Encryptor, Peer};
use stratumv2::noise::{new_noise_initiator, new_noise_responder, CertificateFormat, NoiseSession, SignatureNoiseMessage};
use stratumv2::{job_negotiation as jn, mining};

const NOW: i64 = 1_600_000_500;
const FROM: u32 = 1_600_000_000;
const UNTIL: u32 = 1_600_001_000;
const MAC: usize = 16;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Config {
    Honest,
    /// Own static key, the genuine server's certificate.
    StolenCert,
    /// Own static key, certificate by an authority of its own.
    OwnAuthority,
    /// The genuine static key with a certificate of another authority.
    OtherAuthority,
    Expired,
    NotYet,
    /// Genuine certificate with one field changed.
    OtherVersion,
    LongerWindow,
    /// Own static key, and a genuine certificate for a third party.
    ThirdParty,
}
const CONFIGS: [Config; 9] = [
    Config::Honest,
    Config::StolenCert,
    Config::OwnAuthority,
    Config::OtherAuthority,
    Config::Expired,
    Config::NotYet,
    Config::OtherVersion,
    Config::LongerWindow,
    Config::ThirdParty,
];

/// Static key number and certificate of the server.
fn server_identity(c: Config) -> &'static (u64, SignatureNoiseMessage) {
    static T: OnceLock<Vec<(u64, SignatureNoiseMessage)>> = OnceLock::new();
    &T.get_or_init(|| {
        let k = |n: u64| pair(n).get_public_key().as_bytes();
        CONFIGS
            .iter()
            .map(|c| match c {
                Config::Honest => (2, signed(1, 0, FROM, UNTIL, &k(2))),
                Config::StolenCert => (5, signed(1, 0, FROM, UNTIL, &k(2))),
                Config::OwnAuthority => (5, signed(2, 0, FROM, UNTIL, &k(5))),
                Config::OtherAuthority => (2, signed(2, 0, FROM, UNTIL, &k(2))),
                Config::Expired => (2, signed(1, 0, FROM - 1000, NOW as u32, &k(2))),
                Config::NotYet => (2, signed(1, 0, NOW as u32 + 1, UNTIL, &k(2))),
                Config::OtherVersion => {
                    let mut m = signed(1, 0, FROM, UNTIL, &k(2));
                    m.version = 1;
                    (2, m)
                }
                Config::LongerWindow => {
                    let mut m = signed(1, 0, FROM, UNTIL, &k(2));
                    m.not_valid_after += 1;
                    (2, m)
                }
                Config::ThirdParty => (5, signed(1, 0, FROM, UNTIL, &k(6))),
            })
            .collect()
    })[CONFIGS.iter().position(|x| *x == c).unwrap()]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Variant {
    Mining,
    MiningError,
    Job,
    JobError,
}
const VARIANTS: [Variant; 4] = [Variant::Mining, Variant::MiningError, Variant::Job, Variant::JobError];

/// One message as an application sees it: its wire form and its decoded contents.
#[derive(Clone, PartialEq, Debug)]
struct Seen {
    wire: Vec<u8>,
    value: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Greeting,
    Certificate,
    Setup,
    Open,
    Done,
    Failed,
}

struct Nothing;
impl Encryptor for Nothing {
    fn is_handshake_complete(&self) -> bool {
        false
    }
    fn recv_handshake(&mut self, _: &mut [u8]) -> Result<Vec<u8>, Error> {
        Ok(vec![])
    }
    fn init_handshake(&mut self) -> Result<Vec<u8>, Error> {
        Ok(vec![])
    }
    fn encrypt_message(_: &[u8]) -> Vec<u8> {
        vec![]
    }
    fn decrypt_message(_: &[u8]) -> Vec<u8> {
        vec![]
    }
}

struct Side {
    session: NoiseSession,
    phase: Phase,
    sent: Vec<Seen>,
    got: Vec<Seen>,
    peer: Peer<Nothing>,
}

struct Run {
    config: Config,
    variant: Variant,
    /// A refused handshake message does not end the connection.
    stubborn: bool,
    /// Which connection this is: contents and ephemeral keys differ.
    conn: u64,
    side: [Side; 2],
    accepted: bool,
    history: Vec<(usize, Rc<Vec<u8>>)>,
    queue: VecDeque<(usize, Rc<Vec<u8>>)>,
}

const CLIENT: usize = 0;
const SERVER: usize = 1;

fn setup_message(v: Variant, n: u64) -> Result<SetupConnection, Error> {
    let host = format!("pool-{}.example", n);
    match v {
        Variant::Mining | Variant::MiningError => SetupConnection::new_mining(
            2,
            2 + n as u16,
            mining::SetupConnectionFlags::REQUIRES_STANDARD_JOBS,
            host,
            3333,
            "vendor".into(),
            "hw 1".into(),
            format!("fw {}", n),
            "device".into(),
        ),
        _ => SetupConnection::new_job_negotation(
            2,
            2 + n as u16,
            jn::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING,
            host,
            3333,
            "vendor".into(),
            "hw 1".into(),
            format!("fw {}", n),
            "device".into(),
        ),
    }
}

fn show_setup(m: &SetupConnection) -> String {
    match m {
        SetupConnection::Mining(m) => format!("{:?}", m),
        SetupConnection::JobNegotiation(m) => format!("jn {:?}", m),
    }
}

/// What a side makes of a decrypted message.
enum Take {
    Got(String, Phase),
    Bad(String),
}

fn opened<T: Frameable>(m: &Message, show: impl Fn(&T) -> String) -> Result<String, Error> {
    unframe::<T>(m).map(|x| show(&x))
}

impl Run {
    fn new(config: Config, variant: Variant, stubborn: bool, conn: u64) -> Run {
        let (key, _) = server_identity(config);
        let mut i = new_noise_initiator();
        i.set_ephemeral_keypair(pair(300 + 2 * conn));
        let mut r = new_noise_responder(Some(pair(*key)));
        r.set_ephemeral_keypair(pair(301 + 2 * conn));
        let side = |s| Side { session: s, phase: Phase::Greeting, sent: vec![], got: vec![], peer: Peer::new(Nothing) };
        Run {
            config,
            variant,
            stubborn,
            conn,
            side: [side(i), side(r)],
            accepted: false,
            history: vec![],
            queue: VecDeque::new(),
        }
    }
    fn err(&self) -> bool {
        matches!(self.variant, Variant::MiningError | Variant::JobError)
    }
    /// Encrypts and sends; the receiver of what `from` sends is the other side.
    fn send(&mut self, from: usize, plain: &[u8], overhead: usize) -> Res {
        let mut b = plain.to_vec();
        b.resize(plain.len() + overhead, 0);
        // The handshake places its payload at the end of the buffer's head; see the layouts below.
        self.side[from].session.send_message(&mut b).map_err(|e| format!("side {} cannot send {} bytes: {}", from, b.len(), e))?;
        let m = (1 - from, Rc::new(b));
        self.history.push(m.clone());
        self.queue.push_back(m);
        Ok(())
    }
    fn begin(&mut self) -> Res {
        // A: ephemeral key, then room for a payload (none is carried).
        self.send(CLIENT, &[], 32)
    }
    fn say<T: Frameable>(&mut self, from: usize, m: &T, value: String) -> Res {
        let f = frame(m).map_err(|e| format!("cannot frame {}: {}", value, e))?;
        match self.side[from].peer.pending_msg_buffer.lock() {
            Ok(mut q) => q.push(f),
            Err(_) => return Err("the outgoing queue cannot be locked".into()),
        }
        for q in self.side[from].peer.get_pending_msgs() {
            let wire = serialize(&q).map_err(|e| format!("cannot encode {}: {}", value, e))?;
            self.side[from].sent.push(Seen { wire: wire.clone(), value: value.clone() });
            self.send(from, &wire, MAC)?;
        }
        Ok(())
    }
    fn say_setup(&mut self) -> Res {
        let m = setup_message(self.variant, self.conn).map_err(|e| format!("cannot build the setup message: {}", e))?;
        let v = show_setup(&m);
        self.say(CLIENT, &m, v)
    }
    fn say_reply(&mut self) -> Res {
        let n = self.conn as u16;
        let bad = |e| format!("cannot build the reply: {}", e);
        match self.variant {
            Variant::Mining => {
                let m = mining::SetupConnectionSuccess::new(2 + n, mining::SetupConnectionSuccessFlags::REQUIRES_FIXED_VERSION).map_err(bad)?;
                self.say(SERVER, &m, format!("{:?}", m))
            }
            Variant::Job => {
                let m = jn::SetupConnectionSuccess::new(2 + n, jn::SetupConnectionSuccessFlags::NONE).map_err(bad)?;
                self.say(SERVER, &m, format!("{:?}", m))
            }
            Variant::MiningError => {
                let f = if n % 2 == 0 { mining::SetupConnectionFlags::REQUIRES_STANDARD_JOBS } else { mining::SetupConnectionFlags::all() };
                let m = mining::SetupConnectionError::new(f, SetupConnectionErrorCode::UnsupportedFeatureFlags).map_err(bad)?;
                self.say(SERVER, &m, format!("{:?}", m))
            }
            Variant::JobError => {
                let f = if n % 2 == 0 { jn::SetupConnectionFlags::all() } else { jn::SetupConnectionFlags::empty() };
                let m = jn::SetupConnectionError::new(f, SetupConnectionErrorCode::ProtocolVersionMismatch).map_err(bad)?;
                self.say(SERVER, &m, format!("{:?}", m))
            }
        }
    }
    /// The client asks for two channels without waiting for the first answer.
    fn say_open(&mut self) -> Res {
        for k in 0..2 {
            let m = mining::OpenStandardMiningChannel::new(7 + 2 * self.conn as u32 + k, format!("worker.{}.{}", self.conn, k), 12.5, [self.conn as u8; 32])
                .map_err(|e| format!("cannot build the open request: {}", e))?;
            self.say(CLIENT, &m, format!("{:?}", m))?;
        }
        Ok(())
    }
    fn say_opened(&mut self) -> Res {
        let k = self.side[SERVER].got.len() as u32;
        let m = mining::OpenStandardMiningChannelSuccess::new(7 + self.conn as u32, 1000 + k, [0x40; 32], vec![1, 2, self.conn as u8], 5)
            .map_err(|e| format!("cannot build the open reply: {}", e))?;
        self.say(SERVER, &m, format!("{:?}", m))
    }
    /// The phase after one more message when a side expects so many in all.
    fn until(&self, to: usize, all: usize) -> Phase {
        if self.side[to].got.len() + 1 >= all {
            Phase::Done
        } else {
            Phase::Open
        }
    }
    /// Delivers bytes to a side. Returns an error only for a violation.
    fn deliver(&mut self, to: usize, bytes: &[u8], ctx: &mut Ctx) -> Res {
        let phase = self.side[to].phase;
        if matches!(phase, Phase::Failed | Phase::Done) && !self.side[to].session.is_transport() {
            return Ok(());
        }
        if phase == Phase::Failed {
            return Ok(());
        }
        let mut b = bytes.to_vec();
        let got = self.side[to].session.recv_message(&mut b);
        ctx.note(|| format!("side {} in {:?} gets {} bytes: {}", to, phase, bytes.len(), if got.is_ok() { "taken" } else { "refused" }));
        if phase == Phase::Greeting {
            if got.is_err() {
                if !self.stubborn {
                    self.side[to].phase = Phase::Failed;
                }
                return self.monitor(ctx);
            }
            if to == SERVER {
                // B: ephemeral and static key, two MACs, no payload.
                if self.send(SERVER, &[], 96).is_err() {
                    self.side[to].phase = Phase::Failed;
                    return self.monitor(ctx);
                }
                if !self.side[to].session.is_transport() {
                    return Err("the server has answered the greeting and is not in transport".into());
                }
                let cert = server_identity(self.config).1.clone();
                let wire = serialize(&cert).map_err(|e| format!("cannot encode the certificate: {}", e))?;
                self.side[SERVER].sent.push(Seen { wire: wire.clone(), value: format!("{:?}", cert) });
                self.side[SERVER].phase = Phase::Setup;
                self.send(SERVER, &wire, MAC)?;
            } else {
                if !self.side[to].session.is_transport() {
                    return Err("the client has taken the reply and is not in transport".into());
                }
                self.side[CLIENT].phase = Phase::Certificate;
            }
            return self.monitor(ctx);
        }
        if got.is_err() {
            // Not from the peer: ignored.
            return self.monitor(ctx);
        }
        let wire = b[..b.len() - MAC].to_vec();
        let take = self.take(to, phase, &wire);
        match take {
            Take::Got(value, next) => {
                self.side[to].got.push(Seen { wire, value });
                self.side[to].phase = next;
                self.monitor(ctx)?;
                match (to, phase) {
                    (CLIENT, Phase::Certificate) => self.say_setup()?,
                    (SERVER, Phase::Setup) => self.say_reply()?,
                    (CLIENT, Phase::Setup) if next == Phase::Open => self.say_open()?,
                    (SERVER, Phase::Open) => self.say_opened()?,
                    _ => {}
                }
            }
            Take::Bad(why) => {
                ctx.note(|| format!("side {} gives up: {}", to, why));
                self.side[to].got.push(Seen { wire, value: "?".into() });
                self.side[to].phase = Phase::Failed;
            }
        }
        self.monitor(ctx)
    }
    fn take(&mut self, to: usize, phase: Phase, wire: &[u8]) -> Take {
        if to == CLIENT && phase == Phase::Certificate {
            let cert: SignatureNoiseMessage = match deserialize(wire) {
                Ok(c) => c,
                Err(e) => return Take::Bad(format!("certificate: {}", e)),
            };
            let key = match self.side[CLIENT].session.get_remote_static_public_key() {
                Some(k) => k,
                None => return Take::Bad("no key of the server".into()),
            };
            let r = clock::at(NOW, 0, || CertificateFormat::new(trusted(), &key, &cert).and_then(|c| c.verify()));
            return match r {
                Ok(_) => {
                    self.accepted = true;
                    Take::Got(format!("{:?}", cert), Phase::Setup)
                }
                Err(e) => Take::Bad(format!("certificate: {}", e)),
            };
        }
        let m: Message = match deserialize(wire) {
            Ok(m) => m,
            Err(e) => return Take::Bad(format!("frame: {}", e)),
        };
        let v = self.variant;
        let r = match (to, phase) {
            (SERVER, Phase::Setup) => opened::<SetupConnection>(&m, show_setup).map(|s| {
                (s, if self.err() || v == Variant::Job { Phase::Done } else { Phase::Open })
            }),
            // Two requests come one after the other.
            (SERVER, Phase::Open) => opened::<mining::OpenStandardMiningChannel>(&m, |x| format!("{:?}", x)).map(|s| (s, self.until(SERVER, 3))),
            (CLIENT, Phase::Setup) => match v {
                Variant::Mining => opened::<mining::SetupConnectionSuccess>(&m, |x| format!("{:?}", x)).map(|s| (s, Phase::Open)),
                Variant::MiningError => opened::<mining::SetupConnectionError>(&m, |x| format!("{:?}", x)).map(|s| (s, Phase::Done)),
                Variant::Job => opened::<jn::SetupConnectionSuccess>(&m, |x| format!("{:?}", x)).map(|s| (s, Phase::Done)),
                Variant::JobError => opened::<jn::SetupConnectionError>(&m, |x| format!("{:?}", x)).map(|s| (s, Phase::Done)),
            },
            (CLIENT, Phase::Open) => opened::<mining::OpenStandardMiningChannelSuccess>(&m, |x| format!("{:?}", x)).map(|s| (s, self.until(CLIENT, 4))),
            // Nothing is expected any more; a genuine message here is a duplicate.
            _ => Ok(("unexpected".into(), phase)),
        };
        match r {
            Ok((s, p)) => Take::Got(s, p),
            Err(e) => Take::Bad(format!("{}", e)),
        }
    }
    fn monitor(&self, ctx: &mut Ctx) -> Res {
        for to in [CLIENT, SERVER] {
            let (got, sent) = (&self.side[to].got, &self.side[1 - to].sent);
            for (i, g) in got.iter().enumerate() {
                match sent.get(i) {
                    None => return Err(format!("side {} obtains message {} that its peer did not send: {}", to, i, hex::encode(&g.wire))),
                    Some(s) if s.wire != g.wire => {
                        return Err(format!("side {} obtains {} as message {}, its peer sent {}", to, hex::encode(&g.wire), i, hex::encode(&s.wire)))
                    }
                    Some(s) if g.value != s.value && g.value != "?" => {
                        return Err(format!("side {} reads message {} as {}, its peer sent {}", to, i, g.value, s.value))
                    }
                    // Its own peer's message, unreadable: only a certificate that must be refused.
                    Some(_) if g.value == "?" && !(to == CLIENT && i == 0 && self.config != Config::Honest) => {
                        return Err(format!("side {} cannot read genuine message {}: {}", to, i, hex::encode(&g.wire)))
                    }
                    _ => {}
                }
            }
        }
        if self.accepted && self.config != Config::Honest {
            return Err(format!("the client accepts the certificate of a server of kind {:?}", self.config));
        }
        if !self.accepted && !self.side[CLIENT].sent.is_empty() {
            return Err("harness: the client sent before accepting".into());
        }
        if self.accepted {
            let k = self.side[CLIENT].session.get_remote_static_public_key().map(|k| k.as_bytes());
            if k != Some(pair(2).get_public_key().as_bytes()) {
                return Err(format!("the client has accepted a certificate for {:?}", k.map(hex::encode)));
            }
        }
        ctx.visit(h(&[
            28,
            self.side[0].phase as u64,
            self.side[1].phase as u64,
            self.side[0].got.len() as u64,
            self.side[1].got.len() as u64,
            self.queue.len() as u64,
            self.history.len() as u64,
            self.config as u64,
            self.variant as u64,
        ]));
        Ok(())
    }
    fn done(&self) -> bool {
        self.side.iter().all(|s| s.phase == Phase::Done)
    }
}

fn trusted() -> &'static str {
    static T: OnceLock<String> = OnceLock::new();
    T.get_or_init(|| authority_text(1))
}

// ---------------------------------------------------------------- the network

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    /// A message sent earlier in this connection (or the one being delivered).
    Hist(u8),
    /// A message of another connection of the same parties.
    Foreign(u8),
    Junk(u8),
    /// What a side may be waiting for, never encrypted; with or without room for a MAC.
    Plain(u8),
}

/// The messages of the start-up in clear.
fn plain(i: u8) -> Option<Rc<Vec<u8>>> {
    thread_local! {
        static P: Vec<Vec<u8>> = plain_all().unwrap_or_default();
    }
    P.with(|p| {
        p.get(i as usize / 3).map(|m| {
            Rc::new(match i % 3 {
                0 => m.clone(),
                1 => [&m[..], &[0; MAC]].concat(),
                _ => [&[0; MAC], &m[..]].concat(),
            })
        })
    })
}

fn plain_all() -> Result<Vec<Vec<u8>>, Error> {
    fn wire<T: Frameable>(m: &T) -> Result<Vec<u8>, Error> {
        serialize(&frame(m)?)
    }
    Ok(vec![
        serialize(&server_identity(Config::Honest).1)?,
        serialize(&server_identity(Config::OwnAuthority).1)?,
        wire(&setup_message(Variant::Mining, 9)?)?,
        wire(&setup_message(Variant::Job, 9)?)?,
        wire(&mining::SetupConnectionSuccess::new(11, mining::SetupConnectionSuccessFlags::REQUIRES_FIXED_VERSION)?)?,
        wire(&jn::SetupConnectionSuccess::new(11, jn::SetupConnectionSuccessFlags::NONE)?)?,
        wire(&mining::SetupConnectionError::new(mining::SetupConnectionFlags::REQUIRES_VERSION_ROLLING, SetupConnectionErrorCode::ProtocolVersionMismatch)?)?,
        wire(&jn::SetupConnectionError::new(jn::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING, SetupConnectionErrorCode::UnsupportedFeatureFlags)?)?,
        wire(&mining::OpenStandardMiningChannel::new(99, "thief".to_string(), 1.0, [9; 32])?)?,
        wire(&mining::OpenStandardMiningChannelSuccess::new(7, 99, [9; 32], vec![9], 9)?)?,
    ])
}

const PLAIN: usize = 10 * 3;

/// One of those in addition to or in place of a message, to either side.
fn plain_kind(i: usize) -> Kind {
    let (w, side) = (What::Plain((i / 4) as u8), (i % 2) as u8);
    if i / 2 % 2 == 0 {
        Kind::Inject(w, side)
    } else {
        Kind::Replace(w, side)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Drop,
    Twice,
    /// Behind everything that is on its way.
    Delay,
    Flip(u8),
    Cut1,
    CutFront,
    CutTo(u8),
    Ext,
    /// To its sender instead.
    Reflect,
    /// In addition, before it, to this side.
    Inject(What, u8),
    /// In its place, to this side.
    Replace(What, u8),
}

fn sources() -> Vec<What> {
    let mut v = vec![];
    for i in 0..9 {
        v.push(What::Hist(i));
        v.push(What::Foreign(i));
    }
    for i in 0..3 {
        v.push(What::Junk(i));
    }
    v
}

fn kinds() -> Vec<Kind> {
    let mut v = vec![Kind::Drop, Kind::Twice, Kind::Delay, Kind::Cut1, Kind::CutFront, Kind::CutTo(0), Kind::CutTo(16), Kind::Ext, Kind::Reflect];
    v.extend((0..6).map(Kind::Flip));
    for w in sources() {
        for side in 0..2 {
            v.push(Kind::Inject(w, side));
            v.push(Kind::Replace(w, side));
        }
    }
    v
}

fn few_kinds() -> Vec<Kind> {
    vec![
        Kind::Drop,
        Kind::Twice,
        Kind::Delay,
        Kind::Flip(1),
        Kind::Flip(5),
        Kind::Cut1,
        Kind::Reflect,
        Kind::Inject(What::Hist(0), 1),
        Kind::Inject(What::Hist(2), 0),
        Kind::Inject(What::Hist(3), 1),
        Kind::Inject(What::Junk(2), 0),
        Kind::Inject(What::Junk(2), 1),
        Kind::Replace(What::Foreign(0), 1),
        Kind::Replace(What::Foreign(1), 0),
        Kind::Replace(What::Foreign(2), 0),
        Kind::Replace(What::Foreign(3), 1),
        Kind::Replace(What::Hist(2), 0),
    ]
}

/// Every message of another connection between the genuine parties.
fn foreign(v: Variant) -> &'static [Rc<Vec<u8>>] {
    thread_local! {
        static F: [Vec<Rc<Vec<u8>>>; 4] = {
            let one = |v| {
                let mut r = Run::new(Config::Honest, v, false, 1);
                let mut c = Ctx::default();
                let _ = guarded(|| {
                    let _ = r.begin();
                    while let Some((to, m)) = r.queue.pop_front() {
                        if r.deliver(to, &m, &mut c).is_err() {
                            break;
                        }
                    }
                });
                r.history.iter().map(|x| x.1.clone()).collect::<Vec<_>>()
            };
            [one(VARIANTS[0]), one(VARIANTS[1]), one(VARIANTS[2]), one(VARIANTS[3])]
        };
    }
    let i = VARIANTS.iter().position(|x| *x == v).unwrap();
    F.with(|f| unsafe { std::mem::transmute::<&[Rc<Vec<u8>>], &'static [Rc<Vec<u8>>]>(&f[i][..]) })
}

fn content(r: &Run, w: What) -> Option<Rc<Vec<u8>>> {
    match w {
        What::Hist(i) => r.history.get(i as usize).map(|x| x.1.clone()),
        What::Foreign(i) => foreign(r.variant).get(i as usize).cloned(),
        What::Plain(i) => plain(i),
        What::Junk(0) => Some(Rc::new(vec![])),
        What::Junk(1) => Some(Rc::new(vec![0; 96])),
        What::Junk(_) => Some(Rc::new(pattern(77, 120))),
    }
}

const POSITIONS: usize = 9;

struct Outcome {
    done: bool,
    /// Whether every departure was an addition to a side already in transport.
    harmless: bool,
    /// Whether every departure took place.
    applied: bool,
}

fn run(config: Config, variant: Variant, stubborn: bool, plan: &[(usize, Kind)], ctx: &mut Ctx) -> Result<Outcome, String> {
    let mut r = Run::new(config, variant, stubborn, 0);
    r.begin()?;
    let mut at = 0;
    let mut used = 0;
    let mut harmless = true;
    while let Some((to, m)) = r.queue.pop_front() {
        let mut arrives = Some((to, m.clone()));
        let mut twice = false;
        for (_, k) in plan.iter().filter(|p| p.0 == at) {
            let (side, bytes) = match &arrives {
                Some((t, b)) => (*t, b.clone()),
                None => {
                    if !matches!(k, Kind::Inject(..)) {
                        continue;
                    }
                    (to, m.clone())
                }
            };
            let change = |f: &dyn Fn(&mut Vec<u8>)| {
                let mut b = bytes.to_vec();
                f(&mut b);
                Some((side, Rc::new(b)))
            };
            used += 1;
            match k {
                Kind::Inject(w, s) => match content(&r, *w) {
                    Some(b) => {
                        let s = *s as usize;
                        if !r.side[s].session.is_transport() {
                            harmless = false;
                        }
                        r.deliver(s, &b, ctx)?;
                    }
                    None => used -= 1,
                },
                Kind::Twice => twice = true,
                other => {
                    harmless = false;
                    arrives = match other {
                        Kind::Drop => None,
                        Kind::Delay => {
                            if r.queue.is_empty() {
                                used -= 1;
                                arrives
                            } else {
                                r.queue.push_back((side, bytes));
                                None
                            }
                        }
                        Kind::Flip(i) => change(&|b| {
                            if !b.is_empty() {
                                let n = b.len();
                                let p = [0, 31.min(n - 1), 40 % n, n / 2, n.saturating_sub(17), n - 1][*i as usize];
                                b[p] ^= [1, 0x80, 1, 0x10, 4, 0x80][*i as usize];
                            }
                        }),
                        Kind::Cut1 => change(&|b| {
                            b.pop();
                        }),
                        Kind::CutFront => change(&|b| {
                            if !b.is_empty() {
                                b.remove(0);
                            }
                        }),
                        Kind::CutTo(n) => change(&|b| b.truncate(*n as usize)),
                        Kind::Ext => change(&|b| b.push(0)),
                        Kind::Reflect => Some((1 - side, bytes)),
                        Kind::Replace(w, s) => match content(&r, *w) {
                            Some(b) => Some((*s as usize, b)),
                            None => {
                                used -= 1;
                                arrives
                            }
                        },
                        _ => unreachable!(),
                    };
                }
            }
        }
        if let Some((t, b)) = arrives {
            r.deliver(t, &b, ctx)?;
            if twice {
                if !r.side[t].session.is_transport() {
                    harmless = false;
                }
                r.deliver(t, &b, ctx)?;
            }
        }
        at += 1;
        if at > 40 {
            return Err("harness: the exchange does not end".into());
        }
    }
    ctx.traces += 1;
    Ok(Outcome { done: r.done(), harmless, applied: used == plan.len() })
}

fn judge(config: Config, variant: Variant, stubborn: bool, plan: &[(usize, Kind)], ctx: &mut Ctx) -> Res {
    let name = || format!("{:?}, {:?}, {}, plan {:?}", config, variant, if stubborn { "stubborn" } else { "plain" }, plan);
    let o = run(config, variant, stubborn, plan, ctx).map_err(|e| format!("{}: {}", name(), e))?;
    if !o.applied {
        ctx.uncounted = true;
    }
    if config == Config::Honest && o.harmless && !o.done {
        return Err(format!("{}: the start-up does not complete", name()));
    }
    Ok(())
}

pub fn c28(tier: Tier) -> Property {
    let nc = CONFIGS.len();
    let nk = kinds().len();
    let nf = few_kinds().len();
    let mut f = vec![];
    f.push(Family::new("undisturbed", (nc * 4 * 2) as u64, "every server kind, conversation and error policy; an honest server's start-up completes", |n, ctx| {
        let mut r = Radix(n);
        judge(CONFIGS[r.take(CONFIGS.len())], VARIANTS[r.take(4)], r.take(2) == 1, &[], ctx)
    }));
    f.push(Family::new(
        "one departure",
        (nc * 4 * 2 * nk * POSITIONS) as u64,
        format!("every server kind, conversation and error policy, each of {} kinds of interference at each delivery", nk),
        move |n, ctx| {
            let mut r = Radix(n);
            let (c, v, s) = (CONFIGS[r.take(CONFIGS.len())], VARIANTS[r.take(4)], r.take(2) == 1);
            let k = kinds()[r.take(nk)];
            judge(c, v, s, &[(r.take(POSITIONS), k)], ctx)
        },
    ));
    f.push(Family::new(
        "unencrypted messages",
        (nc * 4 * PLAIN * 4 * POSITIONS) as u64,
        format!("every server kind and conversation: each of {} messages a side may wait for, in clear, as it is, followed or preceded by 16 bytes, in addition to or in place of each delivery, to either side", PLAIN / 3),
        move |n, ctx| {
            let mut r = Radix(n);
            let (c, v) = (CONFIGS[r.take(CONFIGS.len())], VARIANTS[r.take(4)]);
            let k = plain_kind(r.take(PLAIN * 4));
            judge(c, v, (n / 3) % 2 == 0, &[(r.take(POSITIONS), k)], ctx)
        },
    ));
    // One departure of any kind with one of a few kinds, either first.
    f.push(Family::new(
        "two departures, one of few kinds",
        (2 * nk * POSITIONS * nf * POSITIONS) as u64,
        format!("every pair of departures, one of {} kinds and one of {} kinds in either order, honest server, refused handshake messages ignored", nk, nf),
        move |n, ctx| {
            let mut r = Radix(n);
            let swap = r.take(2) == 1;
            let (i, j) = (r.take(nk * POSITIONS), r.take(nf * POSITIONS));
            let (a, b) = ((i / nk, kinds()[i % nk]), (j / nf, few_kinds()[j % nf]));
            let (a, b) = if swap { (b, a) } else { (a, b) };
            if a.0 > b.0 {
                ctx.uncounted = true;
                return Ok(());
            }
            judge(Config::Honest, Variant::Mining, true, &[a, b], ctx)
        },
    ));
    let two = nk * POSITIONS;
    let nc2 = CONFIGS.len();
    if tier.thorough() {
        f.push(Family::new(
            "two departures",
            (nc2 * 2 * two * two) as u64,
            format!("every ordered pair of departures ({} kinds at each delivery), {} server kinds, 2 conversations, refused handshake messages ignored", nk, nc2),
            move |n, ctx| {
                let mut r = Radix(n);
                let c = CONFIGS[r.take(nc2)];
                let v = VARIANTS[r.take(2)];
                let (i, j) = (r.take(two), r.take(two));
                let (a, b) = ((i / nk, kinds()[i % nk]), (j / nk, kinds()[j % nk]));
                if a.0 > b.0 {
                    ctx.uncounted = true;
                    return Ok(());
                }
                judge(c, v, true, &[a, b], ctx)
            },
        ));
    }
    f.push(Family::new(
        "two departures, impostors",
        ((nc - 1) * (nf * POSITIONS) * (nf * POSITIONS)) as u64,
        format!("every pair of departures of {} kinds with every impostor", nf),
        move |n, ctx| {
            let mut r = Radix(n);
            let c = CONFIGS[1 + r.take(nc - 1)];
            let (i, j) = (r.take(nf * POSITIONS), r.take(nf * POSITIONS));
            let (a, b) = ((i / nf, few_kinds()[i % nf]), (j / nf, few_kinds()[j % nf]));
            if a.0 > b.0 {
                ctx.uncounted = true;
                return Ok(());
            }
            judge(c, Variant::Mining, true, &[a, b], ctx)
        },
    ));
    f.push(Family::new(
        "one kind at every set of deliveries",
        (nk * 512 * 2) as u64,
        "each kind of interference at every subset of the deliveries, honest server, both error policies",
        move |n, ctx| {
            let mut r = Radix(n);
            let s = r.take(2) == 1;
            let k = kinds()[r.take(nk)];
            let set = r.take(512);
            let plan: Vec<_> = (0..9).filter(|i| set >> i & 1 == 1).map(|i| (i, k)).collect();
            judge(Config::Honest, Variant::Mining, s, &plan, ctx)
        },
    ));
    f.push(Family::new(
        "whole replays",
        512 * 4 * nc as u64,
        "the messages of another connection in place of (or before) the genuine ones, at every subset of the deliveries",
        move |n, ctx| {
            let mut r = Radix(n);
            let c = CONFIGS[r.take(CONFIGS.len())];
            let before = r.take(2) == 1;
            let s = r.take(2) == 1;
            let set = r.take(512);
            let to = [1u8, 0, 0, 1, 0, 1, 1, 0, 0];
            let plan: Vec<_> = (0..9)
                .filter(|i| set >> i & 1 == 1)
                .map(|i| (i, if before { Kind::Inject(What::Foreign(i as u8), to[i]) } else { Kind::Replace(What::Foreign(i as u8), to[i]) }))
                .collect();
            judge(c, Variant::Mining, s, &plan, ctx)
        },
    ));
    let m = nf * POSITIONS;
    if tier.thorough() {
        f.push(Family::new("three departures", (m * m * m) as u64, format!("every triple of departures of {} kinds, honest server", nf), move |n, ctx| {
            let mut r = Radix(n);
            let p: Vec<_> = (0..3)
                .map(|_| {
                    let i = r.take(m);
                    (i / nf, few_kinds()[i % nf])
                })
                .collect();
            if p[0].0 > p[1].0 || p[1].0 > p[2].0 {
                ctx.uncounted = true;
                return Ok(());
            }
            judge(Config::Honest, Variant::Mining, true, &p, ctx)
        }));
    }
    Property {
        families: f,
        assumptions: vec![
            "a side ignores transport messages that its session refuses; a plain side gives up at a refused handshake message, a stubborn one waits on".into(),
            "the client's clock is fixed and the trusted authority is known to it".into(),
        ],
    }
}
