//! The reference model of the Stratum V2 wire format, written from the protocol description and
//! independent of the code under test.

use crate::engine::{h, hs, Ctx};

/// Wire types.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Bool,
    U8,
    U16,
    U24,
    U32,
    F32,
    U256,
    /// One length byte, UTF-8 text of at most this many bytes.
    Str(usize),
    /// `len` length bytes (little endian), data of at most `max` bytes.
    Bytes { len: usize, max: usize },
    /// A 32-bit word of which only these bits are assigned.
    Flags(u32),
    /// Length-prefixed text, one of these.
    Code(&'static [&'static str]),
    Proto,
    /// 64 bytes, the three top bits of the last one clear.
    Sig,
    /// 32 raw bytes (a static public key).
    Key,
    /// 16-bit extension type with channel bit, message type byte.
    MsgType,
}

/// Values: numbers (also booleans, float bit patterns, flag words, indices of codes, protocol
/// bytes, indices of message types) and byte sequences.
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    N(u64),
    B(Vec<u8>),
}

impl Val {
    pub fn n(&self) -> u64 {
        match self {
            Val::N(n) => *n,
            Val::B(_) => panic!("harness: number expected"),
        }
    }
    pub fn b(&self) -> &[u8] {
        match self {
            Val::B(b) => b,
            Val::N(_) => panic!("harness: bytes expected"),
        }
    }
    pub fn s(&self) -> String {
        String::from_utf8(self.b().to_vec()).expect("harness: text expected")
    }
    pub fn show(&self) -> String {
        match self {
            Val::N(n) => format!("{:#x}", n),
            Val::B(b) => short_hex(b),
        }
    }
}

pub fn short_hex(b: &[u8]) -> String {
    if b.len() <= 48 {
        hex::encode(b)
    } else {
        format!("{}..({} bytes)", hex::encode(&b[..32]), b.len())
    }
}

pub fn show_vals(v: &[Val]) -> String {
    v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")
}

pub type Rule = fn(&[Val]) -> bool;

#[derive(Clone)]
pub enum Schema {
    Struct(Vec<(&'static str, Ty)>, Rule),
    /// A leading protocol byte selects the rest.
    Tagged(Vec<(u8, Schema)>),
}

pub fn no_rule(_: &[Val]) -> bool {
    true
}

impl Schema {
    pub fn fields(&self, tag: u64) -> Vec<(&'static str, Ty)> {
        match self {
            Schema::Struct(f, _) => f.clone(),
            Schema::Tagged(alts) => {
                let mut v = vec![("protocol", Ty::Proto)];
                for (t, s) in alts {
                    if *t as u64 == tag {
                        v.extend(s.fields(0));
                    }
                }
                v
            }
        }
    }
    /// Whether the message rules (beyond the field types) hold.
    pub fn rule(&self, v: &[Val]) -> bool {
        match self {
            Schema::Struct(_, r) => r(v),
            Schema::Tagged(alts) => alts
                .iter()
                .find(|(t, _)| *t as u64 == v[0].n())
                .map_or(false, |(_, s)| s.rule(&v[1..])),
        }
    }
}

pub const SETUP_CODES: &[&str] = &[
    "unsupported-feature-flags",
    "unsupported-protocol",
    "protocol-version-mismatch",
];
pub const OPEN_CODES: &[&str] = &["unknown-user", "max-target-out-of-range"];

/// Message types: (extension, number, channel bit), in the order of `adapt::message_types()`.
pub const MSG_TYPES: [(u16, u8, bool); 27] = [
    (0, 0x00, false), // SetupConnection
    (0, 0x01, false), // SetupConnection.Success
    (0, 0x02, false), // SetupConnection.Error
    (0, 0x03, true),  // ChannelEndpointChanged
    (0, 0x10, false), // OpenStandardMiningChannel
    (0, 0x11, false), // OpenStandardMiningChannel.Success
    (0, 0x12, false), // OpenStandardMiningChannel.Error
    (0, 0x13, false), // OpenExtendedMiningChannel
    (0, 0x14, false), // OpenExtendedMiningChannel.Success
    (0, 0x15, false), // OpenExtendedMiningChannel.Error
    (0, 0x16, true),  // UpdateChannel
    (0, 0x17, true),  // UpdateChannel.Error
    (0, 0x18, true),  // CloseChannel
    (0, 0x19, true),  // SetExtranoncePrefix
    (0, 0x1a, true),  // SubmitSharesStandard
    (0, 0x1b, true),  // SubmitSharesExtended
    (0, 0x1c, true),  // SubmitShares.Success
    (0, 0x1d, true),  // SubmitShares.Error
    (0, 0x1e, true),  // NewMiningJob
    (0, 0x1f, true),  // NewExtendedMiningJob
    (0, 0x20, true),  // SetNewPrevHash
    (0, 0x21, true),  // SetTarget
    (0, 0x22, false), // SetCustomMiningJob
    (0, 0x23, false), // SetCustomMiningJob.Success
    (0, 0x24, false), // SetCustomMiningJob.Error
    (0, 0x25, false), // Reconnect
    (0, 0x26, false), // SetGroupChannel
];

/// The two numbers the code reserves for its own tests; the property does not speak about them.
pub const TEST_TYPES: [u8; 2] = [0xfe, 0xff];

pub fn header_type(word: u16, byte: u8) -> Option<usize> {
    MSG_TYPES.iter().position(|(e, m, c)| {
        *m == byte && word == (*e | if *c { 0x8000 } else { 0 })
    })
}

/// RFC 3629 by its byte table.
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + n >= b.len() && n > 0 {
            return false;
        }
        for k in 1..=n {
            let (l, u) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if b[i + k] < l || b[i + k] > u {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

fn le(n: u64, bytes: usize) -> Vec<u8> {
    (0..bytes).map(|i| (n >> (8 * i)) as u8).collect()
}

fn enc_field(t: &Ty, v: &Val, out: &mut Vec<u8>) {
    match t {
        Ty::Bool | Ty::U8 | Ty::Proto => out.push(v.n() as u8),
        Ty::U16 => out.extend(le(v.n(), 2)),
        Ty::U24 => out.extend(le(v.n(), 3)),
        Ty::U32 | Ty::F32 | Ty::Flags(_) => out.extend(le(v.n(), 4)),
        Ty::U256 | Ty::Sig | Ty::Key => out.extend_from_slice(v.b()),
        Ty::Str(_) => {
            out.push(v.b().len() as u8);
            out.extend_from_slice(v.b());
        }
        Ty::Bytes { len, .. } => {
            out.extend(le(v.b().len() as u64, *len));
            out.extend_from_slice(v.b());
        }
        Ty::Code(codes) => {
            let c = codes[v.n() as usize].as_bytes();
            out.push(c.len() as u8);
            out.extend_from_slice(c);
        }
        Ty::MsgType => {
            let (e, m, c) = MSG_TYPES[v.n() as usize];
            out.extend(le((e | if c { 0x8000 } else { 0 }) as u64, 2));
            out.push(m);
        }
    }
}

/// The encoding the protocol prescribes.
pub fn ref_encode(s: &Schema, v: &[Val]) -> Vec<u8> {
    let tag = match s {
        Schema::Tagged(_) => v[0].n(),
        _ => 0,
    };
    let fields = s.fields(tag);
    assert_eq!(fields.len(), v.len(), "harness: wrong number of values");
    let mut out = vec![];
    for ((_, t), v) in fields.iter().zip(v) {
        enc_field(t, v, &mut out);
    }
    out
}

/// Whether a value fits its wire type.
pub fn fits(t: &Ty, v: &Val) -> bool {
    match t {
        Ty::Bool => v.n() < 2,
        Ty::U8 => v.n() < 256,
        Ty::U16 => v.n() < 1 << 16,
        Ty::U24 => v.n() < 1 << 24,
        Ty::U32 | Ty::F32 => v.n() < 1 << 32,
        Ty::Flags(m) => v.n() & !(*m as u64) == 0,
        Ty::U256 | Ty::Key => v.b().len() == 32,
        Ty::Sig => v.b().len() == 64 && v.b()[63] & 0xe0 == 0,
        Ty::Str(max) => v.b().len() <= *max && utf8_ok(v.b()),
        Ty::Bytes { max, .. } => v.b().len() <= *max,
        Ty::Code(c) => (v.n() as usize) < c.len(),
        Ty::Proto => v.n() < 4,
        Ty::MsgType => (v.n() as usize) < MSG_TYPES.len(),
    }
}

pub fn valid(s: &Schema, v: &[Val]) -> bool {
    let tag = match s {
        Schema::Tagged(_) => v[0].n(),
        _ => 0,
    };
    let f = s.fields(tag);
    f.len() == v.len() && f.iter().zip(v).all(|((_, t), v)| fits(t, v)) && s.rule(v)
}

fn dec_field(t: &Ty, b: &[u8], at: usize) -> Result<(Val, usize), &'static str> {
    let take = |at: usize, n: usize| -> Result<&[u8], &'static str> {
        if b.len() - at < n {
            Err("short")
        } else {
            Ok(&b[at..at + n])
        }
    };
    let num = |at: usize, n: usize| -> Result<u64, &'static str> {
        Ok(take(at, n)?
            .iter()
            .enumerate()
            .map(|(i, x)| (*x as u64) << (8 * i))
            .sum())
    };
    let v = match t {
        Ty::Bool => (Val::N(num(at, 1)? & 1), at + 1),
        Ty::U8 => (Val::N(num(at, 1)?), at + 1),
        Ty::Proto => {
            let n = num(at, 1)?;
            if n > 3 {
                return Err("unknown protocol");
            }
            (Val::N(n), at + 1)
        }
        Ty::U16 => (Val::N(num(at, 2)?), at + 2),
        Ty::U24 => (Val::N(num(at, 3)?), at + 3),
        Ty::U32 | Ty::F32 => (Val::N(num(at, 4)?), at + 4),
        Ty::Flags(m) => {
            let n = num(at, 4)?;
            if n & !(*m as u64) != 0 {
                return Err("unassigned flag");
            }
            (Val::N(n), at + 4)
        }
        Ty::U256 | Ty::Key => (Val::B(take(at, 32)?.to_vec()), at + 32),
        Ty::Sig => {
            let s = take(at, 64)?;
            if s[63] & 0xe0 != 0 {
                return Err("malformed signature");
            }
            (Val::B(s.to_vec()), at + 64)
        }
        Ty::Str(max) => {
            let n = num(at, 1)? as usize;
            let d = take(at + 1, n)?;
            if n > *max {
                return Err("too long");
            }
            if !utf8_ok(d) {
                return Err("not UTF-8");
            }
            (Val::B(d.to_vec()), at + 1 + n)
        }
        Ty::Bytes { len, max } => {
            let n = num(at, *len)? as usize;
            let d = take(at + len, n)?;
            if n > *max {
                return Err("too long");
            }
            (Val::B(d.to_vec()), at + len + n)
        }
        Ty::Code(codes) => {
            let n = num(at, 1)? as usize;
            let d = take(at + 1, n)?;
            match codes.iter().position(|c| c.as_bytes() == d) {
                Some(i) => (Val::N(i as u64), at + 1 + n),
                None => return Err("unknown code"),
            }
        }
        Ty::MsgType => {
            let w = num(at, 2)? as u16;
            let m = num(at + 2, 1)? as u8;
            match header_type(w, m) {
                Some(i) => (Val::N(i as u64), at + 3),
                None => return Err("unknown message type"),
            }
        }
    };
    Ok(v)
}

/// What the bytes denote: the values and the number of bytes consumed. Every field step is a
/// transition of the decoder model; its state is (type, field, offset) or the refusal.
pub fn ref_decode(
    id: u64,
    s: &Schema,
    b: &[u8],
    ctx: &mut Ctx,
) -> Result<(Vec<Val>, usize), &'static str> {
    let mut at = 0;
    let mut out: Vec<Val> = vec![];
    let (fields, rule_from): (Vec<(&'static str, Ty)>, usize) = match s {
        Schema::Struct(f, _) => (f.clone(), 0),
        Schema::Tagged(alts) => {
            let (v, n) = dec_field(&Ty::Proto, b, 0).map_err(|e| {
                ctx.visit(h(&[id, u64::MAX, hs(e)]));
                e
            })?;
            let alt = match alts.iter().find(|(t, _)| *t as u64 == v.n()) {
                Some((_, s)) => s,
                None => {
                    ctx.visit(h(&[id, u64::MAX, 1]));
                    return Err("sub-protocol without setup message");
                }
            };
            out.push(v);
            at = n;
            ctx.visit(h(&[id, u64::MAX, 2]));
            (alt.fields(0), 1)
        }
    };
    for (i, (_, t)) in fields.iter().enumerate() {
        match dec_field(t, b, at) {
            Ok((v, n)) => {
                out.push(v);
                at = n;
                ctx.visit(h(&[id, i as u64, (at as u64).min(2048)]));
            }
            Err(e) => {
                ctx.visit(h(&[id, i as u64, (at as u64).min(2048), hs(e)]));
                return Err(e);
            }
        }
    }
    let _ = rule_from;
    if !s.rule(&out) {
        ctx.visit(h(&[id, u64::MAX - 1, 0]));
        return Err("rule");
    }
    Ok((out, at))
}
