//! Finite value domains of the wire types and the value spaces built from them.

use crate::adapt::Kind;
use crate::engine::{Radix, Tier};
use crate::refcodec::*;

pub struct Dom {
    pub size: u64,
    pub get: Box<dyn Fn(u64) -> Val + Send + Sync>,
}

fn dom(size: u64, get: impl Fn(u64) -> Val + Send + Sync + 'static) -> Dom {
    Dom {
        size,
        get: Box::new(get),
    }
}

fn list(v: Vec<Val>) -> Dom {
    let n = v.len() as u64;
    dom(n, move |i| v[i as usize].clone())
}

fn concat(parts: Vec<Dom>) -> Dom {
    let n = parts.iter().map(|d| d.size).sum();
    dom(n, move |mut i| {
        for p in &parts {
            if i < p.size {
                return (p.get)(i);
            }
            i -= p.size;
        }
        unreachable!()
    })
}

/// Every 32-bit word in which at most two bytes differ from a background of zeros or ones.
pub const WORD2: u64 = 6 * 2 * 65536;
pub fn word2(i: u64) -> u64 {
    const PAIRS: [(u32, u32); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let mut r = Radix(i);
    let (a, b) = PAIRS[r.take(6)];
    let bg: u64 = if r.take(2) == 0 { 0 } else { 0xffff_ffff };
    let x = r.take(256) as u64;
    let y = r.take(256) as u64;
    let clear = (0xffu64 << (8 * a)) | (0xffu64 << (8 * b));
    (bg & !clear) | (x << (8 * a)) | (y << (8 * b))
}

/// Words around powers of two, and single / double / triple bit words.
pub fn word_edges() -> Vec<u64> {
    let mut v = vec![];
    for k in 0..32u32 {
        for d in -3i64..=3 {
            v.push(((1i64 << k) + d).rem_euclid(1 << 32) as u64);
            v.push(((1i64 << 32) - (1i64 << k) + d).rem_euclid(1 << 32) as u64);
        }
        for j in 0..k {
            v.push((1u64 << k) | (1u64 << j));
            for l in 0..j {
                v.push((1u64 << k) | (1u64 << j) | (1u64 << l));
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// A text of exactly `n` bytes made with one of the patterns.
pub const TEXT_PATTERNS: usize = 12;
pub fn text(n: usize, pattern: usize) -> Vec<u8> {
    let fill = |c: char, front: bool| -> Vec<u8> {
        let w = c.len_utf8();
        let mut s = String::new();
        let pad = n % w;
        if front {
            for _ in 0..pad {
                s.push('a');
            }
        }
        for _ in 0..n / w {
            s.push(c);
        }
        if !front {
            for _ in 0..pad {
                s.push('z');
            }
        }
        s.into_bytes()
    };
    match pattern {
        0 => vec![b'a'; n],
        1 => (0..n).map(|i| 0x20 + (i % 95) as u8).collect(),
        2 => vec![0; n],
        3 => vec![0x7f; n],
        4 => fill('\u{e9}', true),
        5 => fill('\u{e9}', false),
        6 => fill('\u{20ac}', true),
        7 => fill('\u{20ac}', false),
        8 => fill('\u{1f600}', true),
        9 => fill('\u{1f600}', false),
        10 => vec![b' '; n],
        _ => {
            // widths 1, 2, 3, 4 in turn, padded in front
            let unit = "a\u{e9}\u{20ac}\u{1f600}".as_bytes();
            let mut v = vec![b'-'; n % 10];
            for _ in 0..n / 10 {
                v.extend_from_slice(unit);
            }
            v
        }
    }
}

pub fn data(n: usize, pattern: usize) -> Vec<u8> {
    match pattern {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| (i * 7 + 3) as u8).collect(),
        _ => vec![0x80; n],
    }
}

/// Lengths up to `dense` and around every power of two, multiples of 4096 and the limit.
pub fn lengths(max: usize, dense: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense.min(max)).collect();
    let mut k = 1usize;
    while k <= max * 2 {
        for d in 0..=3 {
            v.push(k.saturating_sub(d));
            v.push(k + d);
        }
        k *= 2;
    }
    let mut m = 4096;
    while m <= max.min(1 << 17) {
        for d in [m - 1, m, m + 1] {
            v.push(d);
        }
        m += 4096;
    }
    for d in 0..=20 {
        v.push(max.saturating_sub(d));
    }
    v.retain(|n| *n <= max);
    v.sort_unstable();
    v.dedup();
    v
}

fn u256_dom() -> Dom {
    dom(32 * 256 * 2 + 496 * 16, |i| {
        if i < 32 * 256 * 2 {
            let mut r = Radix(i);
            let p = r.take(32);
            let x = r.take(256) as u8;
            let bg = if r.take(2) == 0 { 0 } else { 0xff };
            let mut v = vec![bg; 32];
            v[p] = x;
            Val::B(v)
        } else {
            // pairs of positions with edge values
            let mut r = Radix(i - 32 * 256 * 2);
            let a = [1u8, 0x7f, 0x80, 0xff][r.take(4)];
            let b = [1u8, 0x7f, 0x80, 0xff][r.take(4)];
            let k = r.take(496);
            let mut n = 0;
            let mut v = vec![0u8; 32];
            'o: for p in 0..32 {
                for q in 0..p {
                    if n == k {
                        v[p] = a;
                        v[q] = b;
                        break 'o;
                    }
                    n += 1;
                }
            }
            Val::B(v)
        }
    })
}

/// Characters that are trimmed, folded, normalised, escaped or interpreted somewhere.
pub const SPECIAL: [char; 34] = [
    'a', 'Z', '0', ' ', '\t', '\n', '\r', '\0', '\x08', '\x1b', '\x7f', '"', '\'', '\\', '/', '%', '+', '&', '<', '\u{85}',
    '\u{a0}', '\u{ad}', '\u{e9}', '\u{130}', '\u{df}', '\u{301}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{212b}', '\u{feff}',
    '\u{fffd}', '\u{fb01}', '\u{1f600}',
];

fn triples(max: usize) -> u64 {
    if max < 12 {
        0
    } else {
        (SPECIAL.len() as u64).pow(3)
    }
}

pub fn triple(i: u64) -> Vec<u8> {
    let mut r = Radix(i);
    (0..3).map(|_| SPECIAL[r.take(SPECIAL.len())]).collect::<String>().into_bytes()
}

/// The dense domain of a wire type: the complete type where that is feasible.
pub fn dense(t: &Ty, tier: Tier) -> Dom {
    match *t {
        Ty::Bool => dom(2, Val::N),
        Ty::U8 => dom(256, Val::N),
        Ty::U16 => dom(65536, Val::N),
        Ty::U24 => dom(1 << 24, Val::N),
        Ty::U32 | Ty::F32 => concat(vec![
            dom(WORD2, |i| Val::N(word2(i))),
            list(word_edges().into_iter().map(Val::N).collect()),
        ]),
        Ty::U256 => u256_dom(),
        Ty::Key => u256_dom(),
        Ty::Str(max) => {
            let per = (max + 1) as u64;
            let pos = max.min(255) as u64;
            concat(vec![
                dom(per * TEXT_PATTERNS as u64, move |i| {
                    Val::B(text((i % per) as usize, (i / per) as usize))
                }),
                // every ASCII character at every position of a text of full length
                dom(pos * 128, move |i| {
                    let mut v = vec![b'm'; pos as usize];
                    v[(i % pos) as usize] = (i / pos) as u8;
                    Val::B(v)
                }),
                // every ASCII pair
                dom(128 * 128, |i| Val::B(vec![(i % 128) as u8, (i / 128) as u8])),
                // every triple of characters that software likes to treat specially
                dom(triples(max), |i| Val::B(triple(i))),
            ])
        }
        Ty::Bytes { max, .. } => {
            let ls = lengths(
                max,
                if max > 70000 {
                    tier.pick(1100, 5000)
                } else {
                    tier.pick(2100, max)
                },
            );
            let small: Vec<usize> = ls.iter().cloned().filter(|n| *n <= 1 << 17).collect();
            let big: Vec<usize> = ls
                .iter()
                .cloned()
                .filter(|n| *n > 1 << 17)
                .filter(|n| tier.thorough() || *n + 3 >= max)
                .collect();
            let nl = small.len() as u64;
            let nb = big.len() as u64;
            let m = max.min(255) as u64;
            concat(vec![
                dom(nl * 4, move |i| {
                    Val::B(data(small[(i % nl) as usize], (i / nl) as usize))
                }),
                dom(nb, move |i| Val::B(data(big[i as usize], 2))),
                dom(m * 256, move |i| {
                    let mut v = vec![0x55; m as usize];
                    v[(i % m) as usize] = (i / m) as u8;
                    Val::B(v)
                }),
                // all two-byte sequences
                dom(65536, |i| Val::B(vec![i as u8, (i >> 8) as u8])),
            ])
        }
        Ty::Flags(mask) => list(
            (0..=mask as u64)
                .filter(|x| x & !(mask as u64) == 0)
                .map(Val::N)
                .collect(),
        ),
        Ty::Code(c) => list((0..c.len() as u64).map(Val::N).collect()),
        Ty::Proto => dom(4, Val::N),
        Ty::MsgType => dom(MSG_TYPES.len() as u64, Val::N),
        Ty::Sig => dom(64 * 256 * 2, |i| {
            let mut r = Radix(i);
            let p = r.take(64);
            let x = r.take(256) as u8;
            let bg = if r.take(2) == 0 { 0u8 } else { 0xff };
            let mut v = vec![bg; 64];
            v[63] &= 0x1f;
            v[p] = if p == 63 { x & 0x1f } else { x };
            Val::B(v)
        }),
    }
}

/// Edge values of a wire type, for products.
pub fn small(t: &Ty) -> Vec<Val> {
    let ns = |v: &[u64]| v.iter().map(|n| Val::N(*n)).collect::<Vec<_>>();
    match *t {
        Ty::Bool => ns(&[0, 1]),
        Ty::U8 => ns(&[0, 1, 2, 0x7f, 0x80, 0xff]),
        Ty::U16 => ns(&[0, 1, 2, 3, 0xff, 0x100, 0x102, 0x200, 0x7fff, 0x8000, 0xfffe, 0xffff]),
        Ty::U24 => ns(&[0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff]),
        Ty::U32 => ns(&[
            0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000,
            0xfffffffe, 0xffffffff,
        ]),
        Ty::F32 => ns(&[
            0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffffffff,
            1, 0x007fffff, 0x00800000, 0x7f7fffff,
        ]),
        Ty::U256 | Ty::Key => vec![
            Val::B(vec![0; 32]),
            Val::B(vec![0xff; 32]),
            Val::B((0..32).collect()),
            Val::B((0..32).rev().collect()),
        ],
        Ty::Str(max) => {
            let mut v = vec![
                Val::B(vec![]),
                Val::B(b"a".to_vec()),
                Val::B(b" ".to_vec()),
                Val::B(vec![0]),
                Val::B("\u{20ac}".as_bytes().to_vec()),
                Val::B(text(max / 2, 1)),
                Val::B(text(max - 1, 4)),
                Val::B(text(max, 0)),
                Val::B(text(max, 9)),
            ];
            if max > 200 {
                v.push(Val::B(text(127, 0)));
                v.push(Val::B(text(128, 8)));
                v.push(Val::B(text(129, 1)));
            }
            v
        }
        Ty::Bytes { max, .. } => {
            let mut v = vec![
                Val::B(vec![]),
                Val::B(vec![0]),
                Val::B(vec![0xff]),
                Val::B(data(max.min(40) / 2, 2)),
                Val::B(data(max.min(260) - 1, 1)),
                Val::B(data(max.min(260), 2)),
            ];
            if max < 100_000 {
                v.push(Val::B(data(max, 2)));
            }
            v
        }
        Ty::Flags(_) | Ty::Code(_) | Ty::Proto | Ty::MsgType => {
            let d = dense(t, Tier::Quick);
            (0..d.size).map(|i| (d.get)(i)).collect()
        }
        Ty::Sig => vec![
            Val::B(vec![0; 64]),
            Val::B({
                let mut v = vec![0xff; 64];
                v[63] = 0x1f;
                v
            }),
            Val::B({
                let mut v: Vec<u8> = (0..64).map(|i| i * 3 + 1).collect();
                v[63] = 0x0f;
                v
            }),
        ],
    }
}

/// Two or three values, for full products over all fields.
pub fn tiny(t: &Ty) -> Vec<Val> {
    let s = small(t);
    match *t {
        Ty::Str(max) => vec![
            Val::B(vec![]),
            Val::B("b\u{e9}".as_bytes().to_vec()),
            Val::B(text(max, 0)),
        ],
        Ty::U16 => vec![Val::N(2), Val::N(0x1ff), Val::N(0xffff)],
        Ty::Bytes { max, .. } => vec![
            Val::B(vec![]),
            Val::B(vec![9, 0, 9]),
            Val::B(data(max.min(300), 2)),
        ],
        _ => {
            let n = s.len();
            if n <= 3 {
                s
            } else {
                vec![s[0].clone(), s[n / 2].clone(), s[n - 1].clone()]
            }
        }
    }
}

/// A typical value.
pub fn base(t: &Ty, i: usize) -> Val {
    match *t {
        Ty::Bool => Val::N(1),
        Ty::U8 => Val::N(0x11 + i as u64),
        Ty::U16 => Val::N(0x0203 + 0x0101 * i as u64),
        Ty::U24 => Val::N(0x030201),
        Ty::U32 => Val::N(0x04030201 + 0x10101010 * (i as u64 % 8)),
        Ty::F32 => Val::N(0x414570a4),
        Ty::U256 | Ty::Key => Val::B((0..32u8).map(|k| k * 5 + i as u8 + 1).collect()),
        Ty::Str(_) => Val::B(format!("field{}", i).into_bytes()),
        Ty::Bytes { .. } => Val::B(vec![0xa0 + i as u8, 1, 2, 3, 4]),
        Ty::Flags(m) => Val::N((m & m.wrapping_neg()) as u64),
        Ty::Code(_) => Val::N(1),
        Ty::Proto => Val::N(0),
        Ty::Sig => Val::B(
            (0..64u8)
                .map(|k| if k == 63 { 5 } else { k.wrapping_mul(11).wrapping_add(3) })
                .collect(),
        ),
        Ty::MsgType => Val::N(4),
    }
}

/// An extreme value (as large as possible).
pub fn extreme(t: &Ty) -> Val {
    match *t {
        Ty::Bytes { max, .. } if max > 1000 => Val::B(data(700, 1)),
        Ty::Str(max) => Val::B(text(max, 9)),
        _ => small(t).pop().unwrap(),
    }
}

pub fn base_vals(k: &Kind, tag: u64) -> Vec<Val> {
    k.schema
        .fields(tag)
        .iter()
        .enumerate()
        .map(|(i, (n, t))| if *n == "protocol" { Val::N(tag) } else { base(t, i) })
        .collect()
}
pub fn extreme_vals(k: &Kind, tag: u64) -> Vec<Val> {
    k.schema
        .fields(tag)
        .iter()
        .map(|(n, t)| if *n == "protocol" { Val::N(tag) } else { extreme(t) })
        .collect()
}

pub fn tags(k: &Kind) -> Vec<u64> {
    match &k.schema {
        Schema::Tagged(a) => a.iter().map(|(t, _)| *t as u64).collect(),
        _ => vec![0],
    }
}

/// Contents that code which looks at contents may take for something else.
pub fn contents() -> &'static [Vec<u8>] {
    static C: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = crate::noise_props::special_contents(false);
        // Characters that text is sometimes rid of, alone, before, after and within a text.
        let odd: Vec<char> = (0..=0xff).map(|c: u8| c as char).chain("\u{300}\u{301}\u{34f}\u{378}\u{600}\u{61c}\u{180e}\u{2000}\u{2003}\u{200b}\u{200c}\u{200d}\u{200e}\u{200f}\u{2028}\u{2029}\u{202a}\u{202e}\u{2060}\u{2066}\u{2069}\u{2126}\u{212b}\u{3000}\u{ac00}\u{d7ff}\u{e000}\u{f8ff}\u{fb01}\u{fe0f}\u{feff}\u{ff01}\u{fffc}\u{fffd}\u{fffe}\u{ffff}\u{10000}\u{1f3fb}\u{1f600}\u{e0001}\u{e0100}\u{f0000}\u{10fffe}\u{10ffff}".chars()).collect();
        for c in odd {
            for t in [format!("{}", c), format!("{}pool", c), format!("pool{}", c), format!("po{}ol", c), format!("{}{}", c, c), format!("{}p{}", c, c)] {
                v.push(t.into_bytes());
            }
        }
        v.sort();
        v.dedup();
        v
    })
}

pub type Gen = Box<dyn Fn(u64) -> Vec<Val> + Send + Sync>;

/// The value space of a kind: (name, size, generator).
pub fn space(k: &Kind, tier: Tier) -> Vec<(String, u64, Gen)> {
    let mut out: Vec<(String, u64, Gen)> = vec![];
    for tag in tags(k) {
        let fields = k.schema.fields(tag);
        let skip = if matches!(k.schema, Schema::Tagged(_)) { 1 } else { 0 };
        let b0 = base_vals(k, tag);
        let b1 = extreme_vals(k, tag);
        for (i, (name, t)) in fields.iter().enumerate().skip(skip) {
            let d = dense(t, tier);
            let b = b0.clone();
            out.push((
                format!("{}[{}].{} sweep", k.name, tag, name),
                d.size,
                Box::new(move |n| {
                    let mut v = b.clone();
                    v[i] = (d.get)(n);
                    v
                }),
            ));
            if fields.len() > 1 {
                let d = dense(t, tier);
                if d.size <= 70_000 || tier.thorough() {
                    let b = b1.clone();
                    out.push((
                        format!("{}[{}].{} sweep, others extreme", k.name, tag, name),
                        d.size,
                        Box::new(move |n| {
                            let mut v = b.clone();
                            v[i] = (d.get)(n);
                            v
                        }),
                    ));
                }
            }
        }
        for (i, (name, t)) in fields.iter().enumerate().skip(skip) {
            if !matches!(t, Ty::Str(_) | Ty::Bytes { .. }) {
                continue;
            }
            let all: Vec<Val> = contents().iter().map(|c| Val::B(c.clone())).filter(|v| fits(t, v)).collect();
            let b = b0.clone();
            out.push((
                format!("{}[{}].{} contents", k.name, tag, name),
                all.len() as u64,
                Box::new(move |n| {
                    let mut v = b.clone();
                    v[i] = all[n as usize].clone();
                    v
                }),
            ));
        }
        for i in skip..fields.len() {
            for j in skip..i {
                let (x, y) = (small(&fields[i].1), small(&fields[j].1));
                let b = b0.clone();
                out.push((
                    format!("{}[{}] pair {} x {}", k.name, tag, fields[j].0, fields[i].0),
                    (x.len() * y.len()) as u64,
                    Box::new(move |n| {
                        let mut r = Radix(n);
                        let mut v = b.clone();
                        v[i] = x[r.take(x.len())].clone();
                        v[j] = y[r.take(y.len())].clone();
                        v
                    }),
                ));
            }
        }
        if fields.len() > skip + 1 {
            let vs: Vec<Vec<Val>> = fields[skip..].iter().map(|(_, t)| tiny(t)).collect();
            let size = vs.iter().map(|v| v.len() as u64).product();
            let b = b0.clone();
            out.push((
                format!("{}[{}] product of all fields", k.name, tag),
                size,
                Box::new(move |n| {
                    let mut r = Radix(n);
                    let mut v = b.clone();
                    for (i, c) in vs.iter().enumerate() {
                        v[skip + i] = c[r.take(c.len())].clone();
                    }
                    v
                }),
            ));
        }
    }
    out
}
