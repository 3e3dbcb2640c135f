//! C08, C09: the connection-setup rules, and what flags, protocols and codes are accepted.

use crate::adapt::*;
use crate::codec_props::{code_edits, frame_bytes, judge};
use crate::domain::*;
use crate::engine::*;
use crate::refcodec::*;
use std::convert::TryFrom;
use std::str::FromStr;
use std::sync::Arc;
use stratumv2::codec::{deserialize, serialize, Message};
use stratumv2::common::{Protocol, SetupConnectionErrorCode};
use stratumv2::job_negotiation as jn;
use stratumv2::mining::{self, OpenMiningChannelErrorCode};
use stratumv2::types::STR0_255;

type Kinds = Arc<Vec<Kind>>;

/// One message (its fields fit their types, the rules may be broken), by every way in.
fn routes(k: &Kind, v: &[Val], full: bool, ctx: &mut Ctx) -> Res {
    let want = valid(&k.schema, v);
    ctx.note(|| format!("{} {} must be {}", k.name, show_vals(v), if want { "accepted" } else { "refused" }));
    ctx.count(if want { "conforming" } else { "violating" });
    let say = |how: &str, ok: bool| -> String {
        format!(
            "{} with {}: {} {}",
            k.name,
            show_vals(v),
            how,
            if ok { "accepts a violating message" } else { "refuses a conforming message" }
        )
    };
    let same = |how: &str, got: &[Val]| -> Res {
        if got == v {
            Ok(())
        } else {
            Err(format!("{} with {}: {} yields {}", k.name, show_vals(v), how, show_vals(got)))
        }
    };
    // Built.
    match k.ops.build(v)? {
        Ok(got) => {
            if !want {
                return Err(say("the constructor", true));
            }
            same("the constructor", &got)?;
        }
        Err(_) if want => return Err(say("the constructor", false)),
        Err(_) => {}
    }
    ctx.visit(h(&[k.id, 8, want as u64]));
    // Received as bytes.
    let b = ref_encode(&k.schema, v);
    match k.ops.decode_fn(&b)? {
        Ok(got) => {
            if !want {
                return Err(say("the decoder", true));
            }
            same("the decoder", &got)?;
        }
        Err(_) if want => return Err(say("the decoder", false)),
        Err(_) => {}
    }
    ctx.visit(h(&[k.id, 9, want as u64]));
    if !full {
        return Ok(());
    }
    let mut c = b.clone();
    c.extend_from_slice(&[0, 1, 2]);
    if k.ops.decode_only(&c) != want {
        return Err(say("the decoder (bytes following)", !want));
    }
    // Received in a frame.
    if let Some((mt, ops)) = &k.framed {
        let m = Message::new(message_types()[*mt], b.clone());
        match ops.unframe(&m)? {
            Ok(got) => {
                if !want {
                    return Err(say("unframe", true));
                }
                same("unframe", &got)?;
            }
            Err(_) if want => return Err(say("unframe", false)),
            Err(_) => {}
        }
        let wire = frame_bytes(*mt, &b);
        let got = match deserialize::<Message>(&wire) {
            Ok(m) => ops.unframe(&m)?,
            Err(_) => return Err(format!("{}: the frame is refused", k.name)),
        };
        match got {
            Ok(got) => {
                if !want {
                    return Err(say("a received frame", true));
                }
                same("a received frame", &got)?;
            }
            Err(_) if want => return Err(say("a received frame", false)),
            Err(_) => {}
        }
        if want {
            match ops.frame(v) {
                Ok(Ok(m)) if m.payload == b => {}
                _ => return Err(say("frame", false)),
            }
        }
        ctx.visit(h(&[k.id, 10, want as u64]));
    }
    Ok(())
}

fn setup_kinds() -> Kinds {
    Arc::new(vec![kind("mining::SetupConnection"), kind("job_negotiation::SetupConnection"), kind("common::SetupConnection")])
}

/// (kind, protocol tag) pairs of setup requests.
const SETUPS: [(usize, u64); 4] = [(0, 0), (1, 1), (2, 0), (2, 1)];

fn setup_vals(which: usize, w: Vec<Val>) -> Vec<Val> {
    let (k, tag) = SETUPS[which];
    let mut v = w;
    if k == 2 {
        v.insert(0, Val::N(tag));
    }
    v
}

fn txt(s: &str) -> Val {
    Val::B(s.as_bytes().to_vec())
}

fn request(min: u64, max: u64, flags: u64, s: [Val; 5], port: u64) -> Vec<Val> {
    let [host, vendor, hw, fw, id] = s;
    vec![Val::N(min), Val::N(max), Val::N(flags), host, Val::N(port), vendor, hw, fw, id]
}

pub fn c08(tier: Tier) -> Property {
    let mut f = vec![];
    // Versions.
    let mut edge: Vec<u64> = vec![0, 1, 2, 3, 255, 256, 257, 258, 0x7fff, 0x8000, 0xff01, 0xfffe, 0xffff];
    if tier == Tier::Thorough {
        edge = (0..64).chain(250..262).chain((1..16).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1])).chain([0xff00, 0xff01, 0xff02, 0xfffe, 0xffff]).collect();
        edge.sort_unstable();
        edge.dedup();
    }
    let ne = edge.len();
    let ks = setup_kinds();
    f.push(Family::new(
        "versions",
        (4 * 2 * ne * 65536) as u64,
        format!("each setup request, one version over all 65536 values, the other over {} values", ne),
        move |n, ctx| {
            let mut r = Radix(n);
            let which = r.take(4);
            let swap = r.take(2) == 1;
            let e = edge[r.take(ne)];
            let x = r.take(65536) as u64;
            let (a, b) = if swap { (e, x) } else { (x, e) };
            let v = setup_vals(which, request(a, b, 0, [txt("h"), txt("v"), txt("w"), txt("f"), txt("d")], 1));
            routes(&ks[SETUPS[which].0], &v, e == 2 || x < 4, ctx)
        },
    ));
    // Every combination of empty and odd texts with versions and flags.
    let texts: Vec<Val> = vec![
        txt(""),
        txt("a"),
        txt(" "),
        txt("\0"),
        txt("\u{200b}"),
        Val::B(text(255, 0)),
    ];
    let vers = [0u64, 1, 2, 3, 65535];
    let ks = setup_kinds();
    let nt = texts.len();
    f.push(Family::new(
        "texts",
        (4 * 25 * 2 * nt.pow(5)) as u64,
        "each setup request: every combination of 6 texts in the five text fields, 5x5 versions, flags none/all",
        move |n, ctx| {
            let mut r = Radix(n);
            let which = r.take(4);
            let (a, b) = (vers[r.take(5)], vers[r.take(5)]);
            let flags = if r.take(2) == 0 {
                0
            } else if SETUPS[which].1 == 0 {
                M_FLAGS as u64
            } else {
                J_FLAGS as u64
            };
            let s = [0; 5].map(|_| texts[r.take(nt)].clone());
            let v = setup_vals(which, request(a, b, flags, s, 0));
            routes(&ks[SETUPS[which].0], &v, true, ctx)
        },
    ));
    // Every field at once.
    let ks = setup_kinds();
    let few: Vec<Val> = vec![txt(""), txt("x"), Val::B(text(255, 3))];
    let ports = [0u64, 1, 256, 8545, 65535];
    let vers = [(2u64, 2u64), (2, 3), (3, 2), (2, 65535), (65535, 65535), (65535, 2), (0, 2), (2, 1), (1, 65535)];
    let nv = tier.pick(5, vers.len());
    f.push(Family::new(
        "every field at once",
        (4 * nv * ports.len() * 8 * 3usize.pow(5)) as u64,
        "each setup request: every combination of version pairs, ports, flag sets and empty, short and longest texts",
        move |n, ctx| {
            let mut r = Radix(n);
            let which = r.take(4);
            let (a, b) = vers[r.take(nv)];
            let port = ports[r.take(ports.len())];
            let flags = r.take(8) as u64;
            let mask = if SETUPS[which].1 == 0 { M_FLAGS } else { J_FLAGS } as u64;
            if flags & !mask != 0 {
                ctx.uncounted = true;
                return Ok(());
            }
            let s = [0; 5].map(|_| few[r.take(3)].clone());
            let v = setup_vals(which, request(a, b, flags, s, port));
            routes(&ks[SETUPS[which].0], &v, false, ctx)
        },
    ));
    // All lengths and contents of vendor and firmware.
    let ks = setup_kinds();
    f.push(Family::new(
        "vendor and firmware",
        (4 * 2 * 256 * TEXT_PATTERNS * 2) as u64,
        "each setup request: vendor or firmware of every length 0..=255 in 12 patterns, the other empty or not",
        move |n, ctx| {
            let mut r = Radix(n);
            let which = r.take(4);
            let vendor = r.take(2) == 0;
            let len = r.take(256);
            let pat = r.take(TEXT_PATTERNS);
            let other = if r.take(2) == 0 { txt("x") } else { txt("") };
            let t = Val::B(text(len, pat));
            let (ve, fw) = if vendor { (t, other) } else { (other, t) };
            let v = setup_vals(which, request(2, 2, 0, [txt("h"), ve, txt(""), fw, txt("")], 8545));
            routes(&ks[SETUPS[which].0], &v, true, ctx)
        },
    ));
    // One-character vendor / firmware: every Unicode scalar value.
    let ks = setup_kinds();
    f.push(Family::new(
        "one character",
        tier.pick(0x3000u64, 0x11_0000),
        "vendor and firmware of a single character, every scalar value (quick: below U+3000)",
        move |n, ctx| {
            let c = match char::from_u32(n as u32) {
                Some(c) => c,
                None => {
                    ctx.uncounted = true;
                    return Ok(());
                }
            };
            let t = Val::B(c.to_string().into_bytes());
            for which in 0..4 {
                let v = setup_vals(which, request(2, 2, 0, [txt(""), t.clone(), txt(""), t.clone(), txt("")], 0));
                routes(&ks[SETUPS[which].0], &v, false, ctx)?;
            }
            Ok(())
        },
    ));
    // Ports and flags never matter.
    let ks = setup_kinds();
    f.push(Family::new(
        "ports and flags",
        4 * 65536 * 8,
        "each setup request: all ports, all flag sets; vendor empty or not",
        move |n, ctx| {
            let mut r = Radix(n);
            let which = r.take(4);
            let port = r.take(65536) as u64;
            let flags = r.take(8) as u64;
            let mask = if SETUPS[which].1 == 0 { M_FLAGS } else { J_FLAGS } as u64;
            if flags & !mask != 0 {
                ctx.uncounted = true;
                return Ok(());
            }
            let ve = if port % 5 == 4 { "" } else { "v" };
            let v = setup_vals(which, request(2, 3, flags, [txt("h"), txt(ve), txt(""), txt("f"), txt("")], port));
            routes(&ks[SETUPS[which].0], &v, port % 16 == 0, ctx)
        },
    ));
    // Setup errors.
    let ks: Kinds = Arc::new(vec![kind("mining::SetupConnectionError"), kind("job_negotiation::SetupConnectionError")]);
    f.push(Family::new("setup errors", 2 * 8 * 3, "each setup error: every flag set with every code", move |n, ctx| {
        let mut r = Radix(n);
        let k = r.take(2);
        let flags = r.take(8) as u64;
        let code = r.take(3) as u64;
        let mask = if k == 0 { M_FLAGS } else { J_FLAGS } as u64;
        if flags & !mask != 0 {
            ctx.uncounted = true;
            return Ok(());
        }
        routes(&ks[k], &[Val::N(flags), Val::N(code)], true, ctx)
    }));
    // Setup errors with arbitrary words: an unassigned bit does not count as naming a flag.
    let ks: Kinds = Arc::new(vec![kind("mining::SetupConnectionError"), kind("job_negotiation::SetupConnectionError")]);
    let edges = word_edges();
    let total = WORD2 + edges.len() as u64;
    f.push(Family::new(
        "setup errors, any word",
        total * 2 * 3,
        "each setup error received with each code and a 32-bit word in which at most two bytes are arbitrary",
        move |n, ctx| {
            let mut r = Radix(n);
            let k = r.take(2);
            let code = r.take(3);
            let w = if r.0 < WORD2 { word2(r.0) } else { edges[(r.0 - WORD2) as usize] };
            let mut b = (w as u32).to_le_bytes().to_vec();
            b.push(SETUP_CODES[code].len() as u8);
            b.extend_from_slice(SETUP_CODES[code].as_bytes());
            judge(&ks[k], &b, ctx)?;
            if n % 7 == 0 {
                let want = ref_decode(ks[k].id, &ks[k].schema, &b, ctx).is_ok();
                if let Some((mt, ops)) = &ks[k].framed {
                    let m = Message::new(message_types()[*mt], b.clone());
                    if ops.unframe(&m)?.is_ok() != want {
                        return Err(format!("{}: {} in a frame: accepted is not {}", ks[k].name, short_hex(&b), want));
                    }
                }
            }
            Ok(())
        },
    ));
    Property {
        families: f,
        assumptions: vec![
            "messages written as struct literals (all fields are public) bypass the constructors and are not judged".into(),
            "the protocol does not order minimum and maximum version here: a minimum above the maximum is accepted".into(),
        ],
    }
}

// ---------------------------------------------------------------- C09

/// Where a flag word is received: kind, and the bytes before and after it.
fn flag_sites() -> Vec<(Kind, Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    for n in [
        "mining::SetupConnectionFlags",
        "mining::SetupConnectionSuccessFlags",
        "job_negotiation::SetupConnectionFlags",
        "job_negotiation::SetupConnectionSuccessFlags",
    ] {
        out.push((kind(n), vec![], vec![]));
    }
    let tail: Vec<u8> = vec![1, b'h', 1, 0, 1, b'v', 0, 1, b'f', 0];
    for (n, pre) in [
        ("mining::SetupConnection", vec![2, 0, 2, 0]),
        ("job_negotiation::SetupConnection", vec![2, 0, 2, 0]),
        ("common::SetupConnection", vec![0, 2, 0, 2, 0]),
        ("common::SetupConnection", vec![1, 2, 0, 2, 0]),
    ] {
        out.push((kind(n), pre, tail.clone()));
    }
    for n in ["mining::SetupConnectionSuccess", "job_negotiation::SetupConnectionSuccess"] {
        out.push((kind(n), vec![2, 0], vec![]));
    }
    for n in ["mining::SetupConnectionError", "job_negotiation::SetupConnectionError"] {
        let c = SETUP_CODES[1].as_bytes();
        let mut t = vec![c.len() as u8];
        t.extend_from_slice(c);
        out.push((kind(n), vec![], t));
    }
    out
}

trait Code: Sized + Clone + PartialEq + std::fmt::Debug + std::fmt::Display + stratumv2::codec::Serializable + stratumv2::codec::Deserializable + FromStr + 'static {
    fn all() -> Vec<Self>;
    fn texts() -> &'static [&'static str];
    fn from_string(s: String) -> Option<Self>;
    fn from_str0(s: STR0_255) -> Option<Self>;
    fn string(&self) -> String;
    fn str0(&self) -> STR0_255;
    const NAME: &'static str;
}
macro_rules! code {
    ($t:ty, $all:expr, $texts:expr) => {
        impl Code for $t {
            fn all() -> Vec<Self> {
                $all.to_vec()
            }
            fn texts() -> &'static [&'static str] {
                $texts
            }
            fn from_string(s: String) -> Option<Self> {
                <$t>::try_from(s).ok()
            }
            fn from_str0(s: STR0_255) -> Option<Self> {
                <$t>::try_from(s).ok()
            }
            fn string(&self) -> String {
                String::from(self)
            }
            fn str0(&self) -> STR0_255 {
                STR0_255::from(self)
            }
            const NAME: &'static str = stringify!($t);
        }
    };
}
code!(SetupConnectionErrorCode, SETUP_ERRS, SETUP_CODES);
code!(OpenMiningChannelErrorCode, OPEN_ERRS, OPEN_CODES);

/// One byte string offered as a code by every route.
fn code_text<T: Code>(b: &[u8], ctx: &mut Ctx) -> Res {
    let all = T::all();
    let want = T::texts().iter().position(|t| t.as_bytes() == b);
    let check = |how: &str, got: Option<T>| -> Res {
        let g = match &got {
            None => None,
            Some(c) => Some(all.iter().position(|x| x == c).ok_or("an unlisted code")?),
        };
        if g == want {
            Ok(())
        } else {
            Err(format!("{}: {:?} via {} gives {:?}", T::NAME, String::from_utf8_lossy(b), how, got))
        }
    };
    if let Ok(s) = std::str::from_utf8(b) {
        check("from_str", T::from_str(s).ok())?;
        check("parse", s.parse::<T>().ok())?;
        check("try_from(String)", T::from_string(s.to_string()))?;
        if b.len() <= 255 {
            let t = STR0_255::new(s).map_err(|_| format!("STR0_255 refuses {:?}", s))?;
            check("try_from(STR0_255)", T::from_str0(t))?;
        }
    }
    if b.len() <= 255 {
        let mut w = vec![b.len() as u8];
        w.extend_from_slice(b);
        check("the wire", deserialize::<T>(&w).ok())?;
    }
    ctx.count(if want.is_some() { "defined code" } else { "unknown text" });
    ctx.visit(h(&[9, hs(T::NAME), want.map_or(99, |x| x as u64)]));
    Ok(())
}

fn code_forms<T: Code>(i: usize, ctx: &mut Ctx) -> Res {
    let all = T::all();
    if i >= all.len() {
        ctx.uncounted = true;
        return Ok(());
    }
    let (c, t) = (&all[i], T::texts()[i]);
    let mut wire = vec![t.len() as u8];
    wire.extend_from_slice(t.as_bytes());
    let s0 = c.str0();
    let forms: [(&str, bool); 7] = [
        ("Display", format!("{}", c) == t),
        ("to_string", c.to_string() == t),
        ("String", c.string() == t),
        ("STR0_255", s0.data == t && s0.length as usize == t.len()),
        ("the STR0_255's encoding", serialize(&s0).ok().as_deref() == Some(&wire[..])),
        ("the wire", serialize(c).ok().as_deref() == Some(&wire[..])),
        ("FromStr", T::from_str(t).ok().as_ref() == Some(c)),
    ];
    for (how, ok) in forms {
        if !ok {
            return Err(format!("{} {:?}: {} is not {:?}", T::NAME, c, how, t));
        }
    }
    // Every chain of three conversions ends where it began.
    for a in 0..4 {
        for b in 0..4 {
            for d in 0..4 {
                let mut x = c.clone();
                for step in [a, b, d] {
                    let y = match step {
                        0 => T::from_str(&x.to_string()).ok(),
                        1 => T::from_string(x.string()),
                        2 => T::from_str0(x.str0()),
                        _ => serialize(&x).ok().and_then(|w| deserialize::<T>(&w).ok()),
                    };
                    x = y.ok_or_else(|| format!("{} {:?}: conversions {} {} {} fail", T::NAME, c, a, b, d))?;
                }
                if x != *c {
                    return Err(format!("{} {:?}: conversions {} {} {} give {:?}", T::NAME, c, a, b, d, x));
                }
                ctx.visit(h(&[9, hs(T::NAME), i as u64, a, b, d]));
            }
        }
    }
    for (j, d) in all.iter().enumerate() {
        if (c == d) != (i == j) {
            return Err(format!("{}: codes {} and {} compare wrongly", T::NAME, i, j));
        }
    }
    Ok(())
}

macro_rules! flag_forms {
    ($name:expr, $t:ty, $mask:expr, $named:expr, $n:ident, $ctx:ident) => {{
        let w = $n as u32;
        let named: &[(u32, $t)] = &$named;
        match <$t>::from_bits(w) {
            None if w & !$mask == 0 => return Err(format!("{}: {:#x} is refused", $name, w)),
            Some(_) if w & !$mask != 0 => return Err(format!("{}: {:#x} is accepted", $name, w)),
            None => {}
            Some(f) => {
                if f.bits() != w {
                    return Err(format!("{}: {:#x} becomes {:#x}", $name, w, f.bits()));
                }
                let mut u = <$t>::empty();
                for (bit, c) in named {
                    if c.bits() != *bit {
                        return Err(format!("{}: {:?} is {:#x} instead of {:#x}", $name, c, c.bits(), bit));
                    }
                    if w & bit != 0 {
                        u |= *c;
                    }
                }
                if u != f {
                    return Err(format!("{}: {:#x} is not the union of its named flags", $name, w));
                }
                if serialize(&f).ok() != Some(w.to_le_bytes().to_vec()) {
                    return Err(format!("{}: {:#x} is written otherwise", $name, w));
                }
                if deserialize::<$t>(&w.to_le_bytes()).ok() != Some(f) {
                    return Err(format!("{}: {:#x} is read otherwise", $name, w));
                }
            }
        }
        if <$t>::all().bits() != $mask {
            return Err(format!("{}: all flags are {:#x}", $name, <$t>::all().bits()));
        }
        $ctx.visit(h(&[9, hs($name), (w & !$mask == 0) as u64, (w & $mask) as u64]));
        Ok(())
    }};
}

pub fn c09(tier: Tier) -> Property {
    let mut f = vec![];
    // Flag words at every place.
    let sites = Arc::new(flag_sites());
    let edges = Arc::new(word_edges());
    let total = WORD2 + edges.len() as u64;
    let ns = sites.len();
    {
        let (sites, edges) = (sites.clone(), edges.clone());
        f.push(Family::new(
            "flag words",
            total * ns as u64,
            "every word in which at most two bytes are arbitrary (rest 0x00 or 0xff), and words of up to three bits, at each of the 12 places a flag word is received",
            move |n, ctx| {
                let mut r = Radix(n);
                let (k, pre, post) = &sites[r.take(ns)];
                let w = if r.0 < WORD2 { word2(r.0) } else { edges[(r.0 - WORD2) as usize] };
                let mut b = Vec::with_capacity(64);
                b.extend_from_slice(pre);
                b.extend_from_slice(&(w as u32).to_le_bytes());
                b.extend_from_slice(post);
                judge(k, &b, ctx)?;
                if let Some((mt, ops)) = &k.framed {
                    if n % 3 == 0 {
                        let want = ref_decode(k.id, &k.schema, &b, ctx).is_ok();
                        let m = Message::new(message_types()[*mt], b.clone());
                        if ops.unframe(&m)?.is_ok() != want {
                            return Err(format!("{}: flag word {:#x} in a frame: accepted is not {}", k.name, w, want));
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    if tier == Tier::Thorough {
        f.push(Family::new("all flag words", 1 << 32, "all 2^32 words for each of the four flag types", |n, ctx| {
            let b = (n as u32).to_le_bytes();
            let w = n as u32;
            let got = [
                deserialize::<mining::SetupConnectionFlags>(&b).ok().map(|x| x.bits()),
                deserialize::<mining::SetupConnectionSuccessFlags>(&b).ok().map(|x| x.bits()),
                deserialize::<jn::SetupConnectionFlags>(&b).ok().map(|x| x.bits()),
                deserialize::<jn::SetupConnectionSuccessFlags>(&b).ok().map(|x| x.bits()),
            ];
            for (g, m) in got.iter().zip([M_FLAGS, MS_FLAGS, J_FLAGS, JS_FLAGS]) {
                let want = if w & !m == 0 { Some(w) } else { None };
                if *g != want {
                    return Err(format!("flag word {:#x} with assigned bits {:#x} is read as {:?}", w, m, g));
                }
            }
            ctx.transitions += 4;
            Ok(())
        }));
        let sites = sites.clone();
        f.push(Family::new("all flag words in messages", 8 << 24, "all words with an arbitrary low and high byte pair and any third byte at the message sites", move |n, ctx| {
            let mut r = Radix(n);
            let (k, pre, post) = &sites[4 + r.take(8)];
            let w = ((r.0 as u32) & 0xff_ffff).rotate_left(8 * (r.0 % 4) as u32);
            let mut b = Vec::with_capacity(64);
            b.extend_from_slice(pre);
            b.extend_from_slice(&w.to_le_bytes());
            b.extend_from_slice(post);
            judge(k, &b, ctx)
        }));
    }
    // The forms of flag sets.
    f.push(Family::new("flag forms", 4 * 1024, "each flag type, words 0..1024: bits, named constants, union, wire", |n, ctx| {
        let mut r = Radix(n);
        let which = r.take(4);
        let n = r.0;
        match which {
            0 => {
                type F = mining::SetupConnectionFlags;
                flag_forms!("mining::SetupConnectionFlags", F, M_FLAGS, [(1, F::REQUIRES_STANDARD_JOBS), (2, F::REQUIRES_WORK_SELECTION), (4, F::REQUIRES_VERSION_ROLLING)], n, ctx)
            }
            1 => {
                type F = mining::SetupConnectionSuccessFlags;
                flag_forms!("mining::SetupConnectionSuccessFlags", F, MS_FLAGS, [(0, F::NONE), (1, F::REQUIRES_FIXED_VERSION), (2, F::REQUIRES_EXTENDED_CHANNELS)], n, ctx)
            }
            2 => {
                type F = jn::SetupConnectionFlags;
                flag_forms!("job_negotiation::SetupConnectionFlags", F, J_FLAGS, [(1, F::REQUIRES_ASYNC_JOB_MINING)], n, ctx)
            }
            _ => {
                type F = jn::SetupConnectionSuccessFlags;
                flag_forms!("job_negotiation::SetupConnectionSuccessFlags", F, JS_FLAGS, [(0, F::NONE)], n, ctx)
            }
        }
    }));
    // Protocol bytes.
    f.push(Family::new("protocol bytes", 256, "all 256 protocol bytes by every route, with both setup bodies following", |n, ctx| {
        let byte = n as u8;
        let want = PROTOCOLS.get(n as usize).cloned();
        for (how, got) in [("try_from", Protocol::try_from(byte).ok()), ("the wire", deserialize::<Protocol>(&[byte]).ok())] {
            if got != want {
                return Err(format!("protocol byte {} via {} gives {:?}", byte, how, got));
            }
        }
        if let Some(p) = want {
            if u8::from(p) != byte || u8::from(&p) != byte || serialize(&p).ok() != Some(vec![byte]) {
                return Err(format!("{:?} is not written as {}", p, byte));
            }
        }
        ctx.visit(h(&[9, 1000, n.min(5)]));
        let k = kind("common::SetupConnection");
        for flags in [0u32, 1, 7] {
            let mut b = vec![byte, 2, 0, 2, 0];
            b.extend_from_slice(&flags.to_le_bytes());
            b.extend_from_slice(&[1, b'h', 1, 0, 1, b'v', 0, 1, b'f', 0]);
            judge(&k, &b, ctx)?;
            let want = ref_decode(k.id, &k.schema, &b, ctx).is_ok();
            let (mt, ops) = k.framed.as_ref().unwrap();
            let m = Message::new(message_types()[*mt], b.clone());
            if ops.unframe(&m)?.is_ok() != want {
                return Err(format!("protocol byte {} in a frame: accepted is not {}", byte, want));
            }
        }
        Ok(())
    }));
    // Codes.
    f.push(Family::new("code forms", 3, "each code: all forms, and every chain of three conversions", |n, ctx| {
        code_forms::<SetupConnectionErrorCode>(n as usize, ctx)?;
        code_forms::<OpenMiningChannelErrorCode>(n as usize, ctx)
    }));
    let mut edits = code_edits(SETUP_CODES);
    edits.extend(code_edits(OPEN_CODES));
    edits.sort();
    edits.dedup();
    let edits = Arc::new(edits);
    {
        let e = edits.clone();
        f.push(Family::new("edited codes", e.len() as u64, "every code with any one byte replaced, removed, inserted (11 bytes), swapped, case-changed, cut, joined", move |n, ctx| {
            code_text::<SetupConnectionErrorCode>(&e[n as usize], ctx)?;
            code_text::<OpenMiningChannelErrorCode>(&e[n as usize], ctx)
        }));
    }
    if tier == Tier::Thorough {
        // Two edits.
        let e = edits.clone();
        f.push(Family::new("twice edited codes", e.len() as u64 * 64, "every edited code with a second byte changed in any of 64 ways", move |n, ctx| {
            let mut r = Radix(n);
            let mut b = e[r.take(e.len())].clone();
            let (pos, how) = (r.take(16), r.take(4));
            if b.is_empty() {
                ctx.uncounted = true;
                return Ok(());
            }
            let p = pos * b.len() / 16;
            match how {
                0 => b[p] ^= 0x20,
                1 => b[p] ^= 1,
                2 => {
                    b.remove(p);
                }
                _ => b.insert(p, b'-'),
            }
            code_text::<SetupConnectionErrorCode>(&b, ctx)?;
            code_text::<OpenMiningChannelErrorCode>(&b, ctx)
        }));
    }
    let deep = tier.pick(3u32, 4);
    f.push(Family::new(
        "short texts",
        (0..=deep).map(|k| 40u64.pow(k)).sum(),
        format!("all texts of at most {} characters from a-z, '-', '_', ' ', digits", deep),
        move |n, ctx| {
            const A: &[u8; 40] = b"abcdefghijklmnopqrstuvwxyz-_ 0123456789\0";
            let mut n = n;
            let mut len = 0;
            while n >= 40u64.pow(len) {
                n -= 40u64.pow(len);
                len += 1;
            }
            let mut r = Radix(n);
            let b: Vec<u8> = (0..len).map(|_| A[r.take(40)]).collect();
            code_text::<SetupConnectionErrorCode>(&b, ctx)?;
            code_text::<OpenMiningChannelErrorCode>(&b, ctx)
        },
    ));
    // Codes with anything in front or behind up to a full-length text.
    f.push(Family::new("padded codes", 5 * 256 * 4 * 2, "each code padded to every length up to 255 in front or behind with NUL, space, dash or itself", |n, ctx| {
        let mut r = Radix(n);
        let codes: Vec<&str> = SETUP_CODES.iter().chain(OPEN_CODES).cloned().collect();
        let c = codes[r.take(5)].as_bytes();
        let len = r.take(256);
        let pad = r.take(4);
        let front = r.take(2) == 0;
        if len < c.len() {
            ctx.uncounted = true;
            return Ok(());
        }
        let mut p: Vec<u8> = (0..len - c.len()).map(|i| [0, b' ', b'-', c[i % c.len()]][pad]).collect();
        let b = if front {
            p.extend_from_slice(c);
            p
        } else {
            let mut b = c.to_vec();
            b.append(&mut p);
            b
        };
        code_text::<SetupConnectionErrorCode>(&b, ctx)?;
        code_text::<OpenMiningChannelErrorCode>(&b, ctx)
    }));
    // Codes inside messages.
    let hosts: Vec<(Kind, Vec<u8>)> = vec![
        (kind("mining::SetupConnectionError"), vec![1, 0, 0, 0]),
        (kind("job_negotiation::SetupConnectionError"), vec![1, 0, 0, 0]),
        (kind("OpenStandardMiningChannelError"), vec![1, 2, 3, 4]),
        (kind("OpenExtendedMiningChannelError"), vec![1, 2, 3, 4]),
    ];
    let e = edits;
    f.push(Family::new("codes in messages", 4 * e.len() as u64, "the edited codes inside each message that carries a code, decoded and opened from a frame", move |n, ctx| {
        let mut r = Radix(n);
        let (k, pre) = &hosts[r.take(4)];
        let t = &e[r.take(e.len())];
        let mut b = pre.clone();
        b.push(t.len() as u8);
        b.extend_from_slice(t);
        judge(k, &b, ctx)?;
        let want = ref_decode(k.id, &k.schema, &b, ctx).is_ok();
        let (mt, ops) = k.framed.as_ref().unwrap();
        let m = Message::new(message_types()[*mt], b.clone());
        if ops.unframe(&m)?.is_ok() != want {
            return Err(format!("{}: code {:?} in a frame: accepted is not {}", k.name, String::from_utf8_lossy(t), want));
        }
        Ok(())
    }));
    Property {
        families: f,
        assumptions: vec!["the assigned bits, protocol numbers and code texts are those of the protocol as this version of the library documents them".into()],
    }
}
