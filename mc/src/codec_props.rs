//! C01 - C11: the wire format.

use crate::adapt::*;
use crate::domain::*;
use crate::engine::*;
use crate::refcodec::*;
use std::io::Write;
use std::sync::Arc;
use stratumv2::codec::{ByteParser, Deserializable, Message, Serializable};
use stratumv2::types::MessageType;

type Kinds = Arc<Vec<Kind>>;

fn enc(k: &Kind, v: &[Val]) -> Result<Vec<u8>, String> {
    let mut w = vec![];
    match k.ops.encode(v, &mut w) {
        Err(e) => Err(format!("{}: valid value {} refused: {}", k.name, show_vals(v), e)),
        Ok(Err(e)) => Err(format!("{}: encoding of {} failed: {}", k.name, show_vals(v), e)),
        Ok(Ok(n)) => {
            if n != w.len() {
                return Err(format!(
                    "{}: encoder reports {} bytes but wrote {}",
                    k.name,
                    n,
                    w.len()
                ));
            }
            Ok(w)
        }
    }
}

// ---------------------------------------------------------------- C01

fn roundtrip(k: &Kind, v: &[Val], ctx: &mut Ctx) -> Res {
    if !valid(&k.schema, v) {
        ctx.count("outside the rules (see C08)");
        return Ok(());
    }
    ctx.note(|| format!("{} {}", k.name, show_vals(v)));
    let mut w = vec![];
    match k.ops.encode(v, &mut w) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) | Err(e) => {
            return Err(format!("{}: cannot encode {}: {}", k.name, show_vals(v), e))
        }
    }
    ctx.visit(h(&[k.id, 1, w.len() as u64 & 0xfff]));
    let fail = |what: &str| -> Res {
        Err(format!(
            "{}: {} (value {} encoded {})",
            k.name,
            what,
            show_vals(v),
            short_hex(&w)
        ))
    };
    match k.ops.decode(&w, w.len())? {
        Err(e) => return fail(&format!("own encoding does not decode: {}", e)),
        Ok(d) => {
            if d.vals != v {
                return fail(&format!("decodes to a different value {}", show_vals(&d.vals)));
            }
            if !d.consumed_exactly {
                return fail("decode does not consume exactly the bytes written");
            }
        }
    }
    ctx.visit(h(&[k.id, 2, w.len() as u64 & 0xfff]));
    if w.len() <= 70_000 {
        match k.ops.same(v, &w) {
            Ok(true) => {}
            _ => return fail("decoded value is not equal (==) to the original"),
        }
    }
    match k.ops.reencode(&w) {
        Ok(b) if b == w => {}
        _ => return fail("encoding the decoded value again differs"),
    }
    ctx.visit(h(&[k.id, 3, w.len() as u64 & 0xfff]));
    if let Some((_, f)) = &k.framed {
        let m = match f.frame(v) {
            Ok(Ok(m)) => m,
            _ => return fail("cannot be framed"),
        };
        let mut fb = vec![];
        match m.serialize(&mut fb) {
            Ok(n) if n == fb.len() => {}
            _ => return fail("frame does not encode"),
        }
        let mut p = ByteParser::new(&fb, 0);
        let back = match Message::deserialize(&mut p) {
            Ok(b) => b,
            Err(e) => return fail(&format!("frame does not decode: {}", e)),
        };
        if back != m || p.next_by(1).is_ok() {
            return fail("frame changes in transit");
        }
        match f.unframe(&back)? {
            Ok(x) if x == v => {}
            Ok(x) => return fail(&format!("unframes to a different value {}", show_vals(&x))),
            Err(e) => return fail(&format!("does not unframe: {}", e)),
        }
        ctx.visit(h(&[k.id, 4, w.len() as u64 & 0xfff]));
    }
    Ok(())
}

fn per_space(
    tier: Tier,
    kinds: Kinds,
    what: &'static str,
    f: fn(&Kind, &[Val], &mut Ctx) -> Res,
) -> Vec<Family> {
    let mut out = vec![];
    for i in 0..kinds.len() {
        for (name, size, gen) in space(&kinds[i], tier) {
            let ks = kinds.clone();
            out.push(Family::new(name, size, what, move |n, ctx| {
                let v = gen(n);
                f(&ks[i], &v, ctx)
            }));
        }
    }
    out
}

/// Every Unicode scalar value as text, in every string-typed position.
fn scalars(kinds: &Kinds, tier: Tier, f: fn(&Kind, &[Val], &mut Ctx) -> Res) -> Vec<Family> {
    let mut out = vec![];
    for i in 0..kinds.len() {
        for tag in tags(&kinds[i]) {
            for (j, (name, t)) in kinds[i].schema.fields(tag).into_iter().enumerate() {
                if !matches!(t, Ty::Str(_)) {
                    continue;
                }
                let one = kinds[i].schema.fields(tag).len() == 1;
                let b = base_vals(&kinds[i], tag);
                let ks = kinds.clone();
                // All scalar values for the plain types; for message fields the quick tier takes
                // every 16th block boundary and all below U+3000.
                let list: Option<Vec<u32>> = if one || tier.thorough() {
                    None
                } else {
                    let mut l: Vec<u32> = (0..0x3000).collect();
                    for b in (0x3000..0x110000).step_by(64) {
                        l.push(b);
                        l.push(b + 63);
                    }
                    Some(l)
                };
                let size = list.as_ref().map_or(0x110000, |l| l.len() as u64);
                out.push(Family::new(
                    format!("{}[{}].{} Unicode scalars", kinds[i].name, tag, name),
                    size,
                    "scalar values as one-character text",
                    move |n, ctx| {
                        let cp = list.as_ref().map_or(n as u32, |l| l[n as usize]);
                        let c = match char::from_u32(cp) {
                            Some(c) => c,
                            None => return Ok(()),
                        };
                        let mut v = b.clone();
                        v[j] = Val::B(c.to_string().into_bytes());
                        f(&ks[i], &v, ctx)
                    },
                ));
            }
        }
    }
    out
}

/// All 2^32 words for the 32-bit wire types (thorough).
fn words32(kinds: &Kinds, tier: Tier, f: fn(&Kind, &[Val], &mut Ctx) -> Res) -> Vec<Family> {
    let mut out = vec![];
    for i in 0..kinds.len() {
        let fields = kinds[i].schema.fields(0);
        if fields.len() == 1 && matches!(fields[0].1, Ty::U32 | Ty::F32) && kinds[i].framed.is_none()
        {
            let ks = kinds.clone();
            let (size, step) = tier.pick((1u64 << 24, 255u64), (1u64 << 32, 1));
            out.push(Family::new(
                format!("{} words", kinds[i].name),
                size,
                format!("{} 32-bit words, stride {}", size, step),
                move |n, ctx| f(&ks[i], &[Val::N((n * step) & 0xffff_ffff)], ctx),
            ));
        }
    }
    out
}

pub fn c01(tier: Tier) -> Property {
    let kinds: Kinds = Arc::new(all_kinds());
    let mut f = per_space(tier, kinds.clone(), "encode, decode, re-encode, frame", roundtrip);
    f.extend(scalars(&kinds, tier, roundtrip));
    f.extend(words32(&kinds, tier, roundtrip));
    Property {
        families: f,
        assumptions: vec!["values are built through the public constructors".into()],
    }
}

// ---------------------------------------------------------------- C02

fn layout(k: &Kind, v: &[Val], ctx: &mut Ctx) -> Res {
    if !valid(&k.schema, v) {
        return Ok(());
    }
    ctx.note(|| format!("{} {}", k.name, show_vals(v)));
    let want = ref_encode(&k.schema, v);
    let got = enc(k, v)?;
    if got != want {
        return Err(format!(
            "{}: value {} encoded as {} but the protocol says {}",
            k.name,
            show_vals(v),
            short_hex(&got),
            short_hex(&want)
        ));
    }
    ctx.visit(h(&[k.id, want.len() as u64 & 0xfff]));
    match k.ops.encode_fn(v) {
        Ok(Ok(b)) if b == want => {}
        _ => return Err(format!("{}: serialize() differs from Serializable", k.name)),
    }
    ctx.visit(h(&[k.id, 1 << 32, want.len() as u64 & 0xfff]));
    if let Some((mt, f)) = &k.framed {
        let m = match f.frame(v) {
            Ok(Ok(m)) => m,
            _ => return Err(format!("{}: cannot be framed", k.name)),
        };
        let mut fb = vec![];
        let n = m
            .serialize(&mut fb)
            .map_err(|e| format!("{}: frame: {}", k.name, e))?;
        let (e, t, c) = MSG_TYPES[*mt];
        let word = e | if c { 0x8000 } else { 0 };
        let mut wf = vec![word as u8, (word >> 8) as u8, t];
        wf.extend_from_slice(&(want.len() as u32).to_le_bytes()[..3]);
        wf.extend_from_slice(&want);
        if fb != wf || n != wf.len() {
            return Err(format!(
                "{}: frame is {} ({} reported) but the protocol says {}",
                k.name,
                short_hex(&fb),
                n,
                short_hex(&wf)
            ));
        }
        ctx.visit(h(&[k.id, 2 << 32, wf.len() as u64 & 0xfff]));
    }
    Ok(())
}

/// The signed part of a certificate, as the server signs it and as the client rebuilds it.
fn cert_layout() -> Vec<Family> {
    use stratumv2::noise::*;
    let words = {
        let mut v = word_edges();
        v.truncate(4000);
        v
    };
    let n = words.len() as u64;
    vec![Family::new(
        "certificate layout",
        65536 + 2 * n + 32 * 256,
        "version sweep, both times, every key byte",
        move |i, ctx| {
            let (mut ver, mut from, mut to) = (3u16, 5u32, 0xffff_fff0u32);
            let mut key: [u8; 32] = core::array::from_fn(|k| k as u8 + 9);
            if i < 65536 {
                ver = i as u16;
            } else if i < 65536 + n {
                from = words[(i - 65536) as usize] as u32;
            } else if i < 65536 + 2 * n {
                to = words[(i - 65536 - n) as usize] as u32;
            } else {
                let k = i - 65536 - 2 * n;
                key[(k % 32) as usize] = (k / 32) as u8;
            }
            let pk = StaticPublicKey::from_bytes(key).map_err(|e| format!("ordinary key refused: {}", e))?;
            let mut want = vec![];
            want.extend_from_slice(&ver.to_le_bytes());
            want.extend_from_slice(&from.to_le_bytes());
            want.extend_from_slice(&to.to_le_bytes());
            want.extend_from_slice(&key);
            let cert = SignedCertificate {
                version: ver,
                valid_from: from,
                not_valid_after: to,
                public_key: &pk,
            };
            let mut got = vec![];
            let c = cert.serialize(&mut got).map_err(|e| e.to_string())?;
            if got != want || c != want.len() {
                return Err(format!("SignedCertificate encoded as {}", hex::encode(&got)));
            }
            ctx.visit(h(&[7, (i < 65536) as u64]));
            let m = SignatureNoiseMessage {
                version: ver,
                valid_from: from,
                not_valid_after: to,
                signature: Signature::from_bytes(&[1u8; 64]).map_err(|e| e.to_string())?,
            };
            let auth = stratumv2::bitcoin::util::base58::encode_slice(&hex::decode(
                "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a").unwrap());
            let cf = CertificateFormat::new(&auth, &pk, &m).map_err(|e| e.to_string())?;
            let mut got = vec![];
            let c = cf.serialize(&mut got).map_err(|e| e.to_string())?;
            if got != want || c != want.len() {
                return Err(format!("CertificateFormat encoded as {}", hex::encode(&got)));
            }
            let mut got = vec![];
            let c = pk.serialize(&mut got).map_err(|e| e.to_string())?;
            if got != key || c != 32 {
                return Err("static public key encoded wrongly".into());
            }
            ctx.visit(h(&[8, (i < 65536) as u64]));
            ctx.note(|| hex::encode(&want));
            Ok(())
        },
    )]
}

pub fn c02(tier: Tier) -> Property {
    let kinds: Kinds = Arc::new(all_kinds());
    let mut f = per_space(tier, kinds.clone(), "encoding compared with the reference encoder", layout);
    f.extend(scalars(&kinds, tier, layout));
    f.extend(words32(&kinds, tier, layout));
    f.extend(cert_layout());
    Property {
        families: f,
        assumptions: vec!["the reference encoder is written from the Stratum V2 type definitions".into()],
    }
}

// ---------------------------------------------------------------- C03

/// The decision for one byte string.
pub fn judge(k: &Kind, b: &[u8], ctx: &mut Ctx) -> Res {
    ctx.note(|| format!("decode {} from {}", k.name, short_hex(b)));
    if k.name == "Message" && b.len() > 2 && TEST_TYPES.contains(&b[2]) {
        k.ops.decode_only(b);
        return Ok(());
    }
    let want = ref_decode(k.id, &k.schema, b, ctx);
    let expect = want.as_ref().map_or(0, |w| w.1);
    let got = k.ops.decode(b, expect)?;
    match (want, got) {
        (Err(_), Err(_)) => {
            ctx.count("refused");
            Ok(())
        }
        (Ok((v, n)), Ok(d)) => {
            ctx.count("accepted");
            if v != d.vals {
                Err(format!(
                    "{}: {} denotes {} but decodes to {}",
                    k.name,
                    short_hex(b),
                    show_vals(&v),
                    show_vals(&d.vals)
                ))
            } else if !d.consumed_exactly {
                Err(format!("{}: {} should consume {} bytes", k.name, short_hex(b), n))
            } else {
                Ok(())
            }
        }
        (Err(e), Ok(d)) => Err(format!(
            "{}: {} is malformed ({}) but decodes to {}",
            k.name,
            short_hex(b),
            e,
            show_vals(&d.vals)
        )),
        (Ok((v, _)), Err(e)) => Err(format!(
            "{}: {} denotes {} but is refused: {}",
            k.name,
            short_hex(b),
            show_vals(&v),
            e
        )),
    }
}

pub const EDGE: [u8; 14] = [0, 1, 2, 3, 0x1f, 0x20, 0x21, 0x7f, 0x80, 0xc3, 0xed, 0xf0, 0xfe, 0xff];

fn short_strings(kinds: &Kinds, i: usize, len: usize) -> Family {
    let ks = kinds.clone();
    Family::new(
        format!("{} all byte strings of length {}", kinds[i].name, len),
        256u64.pow(len as u32),
        "complete",
        move |n, ctx| {
            let b = n.to_le_bytes();
            judge(&ks[i], &b[..len], ctx)
        },
    )
}

fn seeds(k: &Kind) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for tag in tags(k) {
        for vals in [base_vals(k, tag), extreme_vals(k, tag)] {
            v.push(ref_encode(&k.schema, &vals));
        }
        // shortest: every text and byte sequence empty or one byte
        let fields = k.schema.fields(tag);
        let vals: Vec<Val> = fields
            .iter()
            .enumerate()
            .map(|(i, (n, t))| {
                if *n == "protocol" {
                    Val::N(tag)
                } else if matches!(t, Ty::Str(_)) {
                    Val::B(b"x".to_vec())
                } else if matches!(t, Ty::Bytes { .. }) {
                    Val::B(vec![])
                } else {
                    base(t, i)
                }
            })
            .collect();
        v.push(ref_encode(&k.schema, &vals));
    }
    v.sort();
    v.dedup();
    v
}

/// One byte that is not ASCII at each place of texts and byte fields of many lengths.
fn odd_byte(kinds: &Kinds, tier: Tier, out: &mut Vec<Family>) {
    let lens: Vec<usize> = (1..=tier.pick(34, 130)).chain([39, 40, 47, 48, 63, 64, 65, 127, 128, 129, 255]).collect();
    for (i, k) in kinds.iter().enumerate() {
        let f = k.schema.fields(0);
        let max = match (f.len(), &f[0].1) {
            (1, Ty::Str(max)) => *max,
            _ => continue,
        };
        let places: Vec<(usize, usize)> = lens.iter().filter(|n| **n <= max).flat_map(|n| (0..*n).map(move |p| (*n, p))).collect();
        let ks = kinds.clone();
        out.push(Family::new(
            format!("{} with one odd byte", k.name),
            (places.len() * 130) as u64,
            "plain texts of many lengths with every byte that is not ASCII (and 0 and 0x7f) at each place",
            move |n, ctx| {
                let mut r = Radix(n);
                let (len, p) = places[r.take(places.len())];
                let x = match r.take(130) {
                    128 => 0,
                    129 => 0x7f,
                    x => 0x80 + x as u8,
                };
                let mut b = vec![b'a'; len + 1];
                b[0] = len as u8;
                b[p + 1] = x;
                judge(&ks[i], &b, ctx)
            },
        ));
    }
}

/// The same bytes wherever they lie in memory.
fn anywhere(kinds: &Kinds, out: &mut Vec<Family>) {
    let mut cases: Vec<(usize, Vec<u8>)> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        for s in seeds(k) {
            if s.len() < 4000 {
                for cut in [0, 1, 3] {
                    if s.len() >= cut {
                        cases.push((i, s[..s.len() - cut].to_vec()));
                    }
                }
            }
        }
    }
    let ks = kinds.clone();
    out.push(Family::new("anywhere in memory", cases.len() as u64 * 64, "typical encodings, whole and cut, at each of 64 offsets from an aligned address", move |n, ctx| {
        let (i, b) = &cases[(n / 64) as usize];
        // The contents of the buffer begin at the given offset from a multiple of 64.
        let mut whole = vec![0xa5u8; b.len() + 192];
        let at = whole.as_ptr().align_offset(64) + (n % 64) as usize;
        whole[at..at + b.len()].copy_from_slice(b);
        judge(&ks[*i], &whole[at..at + b.len()], ctx)
    }));
}

pub fn c03(tier: Tier) -> Property {
    let kinds: Kinds = Arc::new(all_kinds());
    let mut out = vec![];
    odd_byte(&kinds, tier, &mut out);
    anywhere(&kinds, &mut out);
    for i in 0..kinds.len() {
        let k = &kinds[i];
        for len in 0..=2 {
            out.push(short_strings(&kinds, i, len));
        }
        let f0 = k.schema.fields(0);
        let textual = f0.len() == 1 && matches!(f0[0].1, Ty::Str(_) | Ty::Bytes { .. } | Ty::U24);
        if tier.thorough() || textual {
            out.push(short_strings(&kinds, i, 3));
        }
        for (si, s) in seeds(k).into_iter().enumerate() {
            if s.len() > 4000 {
                continue;
            }
            let s = Arc::new(s);
            // one position, every value
            let (ks, s1) = (kinds.clone(), s.clone());
            out.push(Family::new(
                format!("{} seed {} single substitutions", k.name, si),
                s.len() as u64 * 256,
                "every position x every byte value",
                move |n, ctx| {
                    let mut b = s1.to_vec();
                    let p = (n / 256) as usize;
                    b[p] = n as u8;
                    judge(&ks[i], &b, ctx)
                },
            ));
            // one position, edge values, every cut
            let max = tier.pick(160, 1400);
            if s.len() <= max {
                let (ks, s1) = (kinds.clone(), s.clone());
                let l = s.len() as u64;
                out.push(Family::new(
                    format!("{} seed {} substitution and cut", k.name, si),
                    l * EDGE.len() as u64 * (l + 3),
                    "every position x edge value x length (also 2 bytes longer)",
                    move |n, ctx| {
                        let mut r = Radix(n);
                        let p = r.take(l as usize);
                        let x = EDGE[r.take(EDGE.len())];
                        let cut = r.take(l as usize + 3);
                        let mut b = s1.to_vec();
                        b[p] = x;
                        b.resize(cut, 0x61);
                        judge(&ks[i], &b, ctx)
                    },
                ));
            }
            // two positions, edge values
            let max = tier.pick(96, 400);
            if s.len() <= max {
                let (ks, s1) = (kinds.clone(), s.clone());
                let l = s.len() as u64;
                let e = EDGE.len() as u64;
                out.push(Family::new(
                    format!("{} seed {} double substitutions", k.name, si),
                    l * l * e * e,
                    "every pair of positions x edge values",
                    move |n, ctx| {
                        let mut r = Radix(n);
                        let (p, q) = (r.take(l as usize), r.take(l as usize));
                        let (x, y) = (EDGE[r.take(EDGE.len())], EDGE[r.take(EDGE.len())]);
                        if q <= p {
                            return Ok(());
                        }
                        let mut b = s1.to_vec();
                        b[p] = x;
                        b[q] = y;
                        judge(&ks[i], &b, ctx)
                    },
                ));
            }
            // after the seed itself, two changes that cancel out in a sum, a parity or a count
            let max = tier.pick(130, 500);
            if s.len() <= max && s.len() > 1 {
                let (ks, s1) = (kinds.clone(), s.clone());
                let l = s.len() as u64;
                out.push(Family::new(
                    format!("{} seed {} balanced changes after it", k.name, si),
                    l * l * 18,
                    "the seed is decoded, then the seed with two bytes changed in opposite ways, every pair of positions",
                    move |n, ctx| {
                        let mut r = Radix(n);
                        let (p, q, w) = (r.take(l as usize), r.take(l as usize), r.take(18));
                        let mut b = s1.to_vec();
                        match w {
                            0..=7 if q > p => {
                                b[p] ^= 1 << w;
                                b[q] ^= 1 << w;
                            }
                            8..=15 => {
                                b[p] = b[p].wrapping_add(1 << (w - 8));
                                b[q] = b[q].wrapping_sub(1 << (w - 8));
                            }
                            16 if q > p => b.swap(p, q),
                            17 if q > p => {
                                b[p] ^= 0xff;
                                b[q] ^= 0xff;
                            }
                            _ => {
                                ctx.uncounted = true;
                                return Ok(());
                            }
                        }
                        let k = &ks[i];
                        if k.name == "Message" && TEST_TYPES.contains(&b[2]) {
                            return Ok(());
                        }
                        ctx.note(|| format!("decode {} from {} and then from {}", k.name, short_hex(&s1), short_hex(&b)));
                        let mut c = Ctx::default();
                        let want = ref_decode(k.id, &k.schema, &b, &mut c).is_ok();
                        let before = ref_decode(k.id, &k.schema, &s1, &mut c).is_ok();
                        let first = k.ops.decode_only(&s1);
                        let then = k.ops.decode_only(&b);
                        let again = k.ops.decode_only(&s1);
                        if then != want || first != before || again != before {
                            return Err(format!("{}: {} is {} after {}", k.name, short_hex(&b), if then { "accepted" } else { "refused" }, short_hex(&s1)));
                        }
                        k.ops.decode_only(&s1);
                        judge(k, &b, ctx)
                    },
                ));
            }
            // deletion and insertion
            let (ks, s1) = (kinds.clone(), s.clone());
            out.push(Family::new(
                format!("{} seed {} deletions and insertions", k.name, si),
                s.len() as u64 * (1 + EDGE.len() as u64),
                "one byte deleted, or one edge byte inserted, anywhere",
                move |n, ctx| {
                    let mut b = s1.to_vec();
                    let p = (n % s1.len() as u64) as usize;
                    let w = (n / s1.len() as u64) as usize;
                    if w == 0 {
                        b.remove(p);
                    } else {
                        b.insert(p, EDGE[w - 1]);
                    }
                    judge(&ks[i], &b, ctx)
                },
            ));
        }
        // claimed length x available data, for every variable-length field
        for tag in tags(k) {
            let fields = k.schema.fields(tag);
            for (j, (name, t)) in fields.iter().enumerate() {
                let lb = match t {
                    Ty::Str(_) | Ty::Code(_) => 1,
                    Ty::Bytes { len, .. } => *len,
                    _ => continue,
                };
                let claims: Vec<u64> = if lb == 1 {
                    (0..256).collect()
                } else {
                    let mut c: Vec<u64> = (0..=330).collect();
                    for k in 8..(8 * lb as u32) {
                        for d in -2i64..=2 {
                            c.push(((1i64 << k) + d) as u64);
                        }
                    }
                    c.push((1u64 << (8 * lb)) - 1);
                    c.push((1u64 << (8 * lb)) - 2);
                    c
                };
                let mut b = base_vals(k, tag);
                b.truncate(j);
                let mut head = vec![];
                for (v, (_, t)) in b.iter().zip(&fields) {
                    let one = Schema::Struct(vec![("x", *t)], no_rule);
                    head.extend(ref_encode(&one, std::slice::from_ref(v)));
                }
                let tail: Vec<u8> = {
                    let rest = base_vals(k, tag);
                    let mut o = vec![];
                    for (v, (_, t)) in rest.iter().zip(&fields).skip(j + 1) {
                        let one = Schema::Struct(vec![("x", *t)], no_rule);
                        o.extend(ref_encode(&one, std::slice::from_ref(v)));
                    }
                    o
                };
                let ks = kinds.clone();
                let nc = claims.len() as u64;
                out.push(Family::new(
                    format!("{}[{}].{} claimed length", k.name, tag, name),
                    nc * 301 * 2,
                    "claimed length x available bytes 0..=300, tail present or not",
                    move |n, ctx| {
                        let mut r = Radix(n);
                        let c = claims[r.take(nc as usize)];
                        let avail = r.take(301);
                        let with_tail = r.take(2) == 1;
                        let mut b = head.clone();
                        b.extend_from_slice(&c.to_le_bytes()[..lb]);
                        b.extend((0..avail).map(|i| b'A' + (i % 50) as u8));
                        if with_tail {
                            b.extend_from_slice(&tail);
                        }
                        judge(&ks[i], &b, ctx)
                    },
                ));
            }
            // text contents: every two-byte content, three bytes with edges
            for (j, (name, t)) in fields.iter().enumerate() {
                if !matches!(t, Ty::Str(_)) {
                    continue;
                }
                let vals = base_vals(k, tag);
                let fields = fields.clone();
                let enc_around = move |content: &[u8]| -> Vec<u8> {
                    let mut o = vec![];
                    for (q, (v, (_, t))) in vals.iter().zip(&fields_of(&vals, &fields)).enumerate() {
                        if q == j {
                            o.push(content.len() as u8);
                            o.extend_from_slice(content);
                        } else {
                            let one = Schema::Struct(vec![("x", *t)], no_rule);
                            o.extend(ref_encode(&one, std::slice::from_ref(v)));
                        }
                    }
                    o
                };
                fn fields_of(
                    _: &[Val],
                    f: &[(&'static str, Ty)],
                ) -> Vec<(&'static str, Ty)> {
                    f.to_vec()
                }
                // precompute head and tail through the closure with a marker
                let probe = enc_around(&[]);
                let head_len = {
                    // position of the (zero) length byte
                    let with = enc_around(b"\x01");
                    let mut p = 0;
                    while p < probe.len() && probe[p] == with[p] {
                        p += 1;
                    }
                    p
                };
                let head = probe[..head_len].to_vec();
                let tail = probe[head_len + 1..].to_vec();
                let ks = kinds.clone();
                let full = f0.len() == 1;
                let size = if full { 1 << 24 } else { 65536 };
                let (h2, t2) = (head.clone(), tail.clone());
                out.push(Family::new(
                    format!("{}[{}].{} contents", k.name, tag, name),
                    size,
                    if full { "all three-byte contents" } else { "all two-byte contents" },
                    move |n, ctx| {
                        let l = if full { 3 } else { 2 };
                        let mut b = h2.clone();
                        b.push(l as u8);
                        b.extend_from_slice(&n.to_le_bytes()[..l]);
                        b.extend_from_slice(&t2);
                        judge(&ks[i], &b, ctx)
                    },
                ));
                let ks = kinds.clone();
                let lead: Vec<u8> = (0xc0..=0xff).chain([0x00, 0x41, 0x7f, 0x80, 0xbf]).collect();
                let cont: Vec<u8> =
                    vec![0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xff];
                let (nl, nc) = (lead.len(), cont.len());
                out.push(Family::new(
                    format!("{}[{}].{} UTF-8 edges", k.name, tag, name),
                    (nl * nc * nc * nc) as u64,
                    "lead byte x three continuation edge bytes",
                    move |n, ctx| {
                        let mut r = Radix(n);
                        let c = [
                            lead[r.take(nl)],
                            cont[r.take(nc)],
                            cont[r.take(nc)],
                            cont[r.take(nc)],
                        ];
                        let mut b = head.clone();
                        b.push(4);
                        b.extend_from_slice(&c);
                        b.extend_from_slice(&tail);
                        judge(&ks[i], &b, ctx)
                    },
                ));
            }
        }
    }
    if tier.thorough() {
        let ks: Kinds = Arc::new(vec![kind("STR0_32")]);
        out.push(Family::new(
            "STR0_32 all four-byte contents",
            1 << 32,
            "complete",
            move |n, ctx| {
                let mut b = [4u8, 0, 0, 0, 0];
                b[1..].copy_from_slice(&(n as u32).to_le_bytes());
                judge(&ks[0], &b, ctx)
            },
        ));
    }
    // code texts: every edit of every code
    for name in [
        "SetupConnectionErrorCode",
        "OpenMiningChannelErrorCode",
        "mining::SetupConnectionError",
        "job_negotiation::SetupConnectionError",
        "OpenStandardMiningChannelError",
        "OpenExtendedMiningChannelError",
    ] {
        let ks: Kinds = Arc::new(vec![kind(name)]);
        let codes = if name.contains("Open") { OPEN_CODES } else { SETUP_CODES };
        let head: Vec<u8> = if name.ends_with("Code") { vec![] } else { vec![1, 0, 0, 0] };
        let edits = code_edits(codes);
        out.push(Family::new(
            format!("{} code edits", name),
            edits.len() as u64,
            "every substitution, insertion, deletion, case change, prefix and concatenation",
            move |n, ctx| {
                let mut b = head.clone();
                let e = &edits[n as usize];
                b.push(e.len() as u8);
                b.extend_from_slice(e);
                judge(&ks[0], &b, ctx)
            },
        ));
    }
    // the parser itself
    out.push(parser_sequences(tier));
    Property {
        families: out,
        assumptions: vec![
            "well-formedness is decided by the reference decoder (RFC 3629 UTF-8, the type limits, the setup rules)".into(),
            "the two message type numbers reserved for the crate's own tests are not judged".into(),
        ],
    }
}

pub fn code_edits(codes: &[&str]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    for c in codes {
        let c = c.as_bytes();
        out.push(c.to_vec());
        for p in 0..c.len() {
            for x in 0..=255u8 {
                let mut v = c.to_vec();
                v[p] = x;
                out.push(v);
            }
            let mut v = c.to_vec();
            v.remove(p);
            out.push(v);
            out.push(c[..p].to_vec());
            out.push(c[p..].to_vec());
            let mut v = c.to_vec();
            v[p..].make_ascii_uppercase();
            out.push(v);
            let mut v = c.to_vec();
            v[..=p].make_ascii_uppercase();
            out.push(v);
            if p + 1 < c.len() {
                let mut v = c.to_vec();
                v.swap(p, p + 1);
                out.push(v);
            }
        }
        for p in 0..=c.len() {
            for x in [0u8, b' ', b'-', b'_', b'a', b'\n', b'\t', b's', 0x80, 0xc3, 0xff] {
                let mut v = c.to_vec();
                v.insert(p, x);
                out.push(v);
            }
        }
        for d in codes {
            let mut v = c.to_vec();
            v.extend_from_slice(d.as_bytes());
            out.push(v);
        }
        let mut v = c.to_vec();
        for b in &mut v {
            if *b == b'-' {
                *b = b'_';
            }
        }
        out.push(v);
    }
    for e in SETUP_CODES.iter().chain(OPEN_CODES) {
        out.push(e.as_bytes().to_vec());
    }
    out.sort();
    out.dedup();
    out
}

/// The cursor: all operation sequences over small buffers.
fn parser_sequences(tier: Tier) -> Family {
    let depth = tier.pick(4usize, 5);
    let steps: [usize; 10] = [
        0,
        1,
        2,
        3,
        5,
        7,
        usize::MAX,
        usize::MAX - 1,
        usize::MAX / 2 + 1,
        1 << 32,
    ];
    let starts: [usize; 8] = [0, 1, 2, 5, 6, 7, usize::MAX, usize::MAX - 1];
    let per = 10u64.pow(depth as u32);
    Family::new(
        "ByteParser operation sequences",
        per * 8 * 7,
        format!("buffers 0..=6, 8 starts, every sequence of {} steps", depth),
        move |n, ctx| {
            let mut r = Radix(n);
            let len = r.take(7);
            let start = starts[r.take(8)];
            let buf: Vec<u8> = (0..len as u8).map(|b| b + 0x40).collect();
            let mut p = ByteParser::new(&buf, start);
            let mut pos = start;
            for _ in 0..depth {
                let s = steps[r.take(10)];
                let want = match pos.checked_add(s) {
                    Some(e) if e <= len && pos <= len => Some(&buf[pos..e]),
                    _ => None,
                };
                let got = p.next_by(s);
                ctx.note(|| format!("len {} start {} next_by({})", len, start, s));
                match (want, got) {
                    (None, Err(_)) => {}
                    (Some(w), Ok(g)) if w == g => pos += s,
                    (w, g) => {
                        return Err(format!(
                            "ByteParser over {} bytes at {}: next_by({}) gives {:?}, expected {:?}",
                            len,
                            pos,
                            s,
                            g.ok(),
                            w
                        ))
                    }
                }
                ctx.visit(h(&[99, len as u64, pos as u64]));
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- C04

fn small_values(k: &Kind) -> Vec<Vec<Val>> {
    let mut out = vec![];
    for tag in tags(k) {
        let fields = k.schema.fields(tag);
        for b in [base_vals(k, tag), extreme_vals(k, tag)] {
            for (i, (n, t)) in fields.iter().enumerate() {
                if *n == "protocol" {
                    continue;
                }
                for x in small(t) {
                    let mut v = b.clone();
                    v[i] = x;
                    if valid(&k.schema, &v) {
                        out.push(v);
                    }
                }
            }
            if valid(&k.schema, &b) {
                out.push(b);
            }
        }
    }
    out
}

fn small_encodings(k: &Kind) -> Vec<Vec<u8>> {
    let mut e: Vec<Vec<u8>> = small_values(k)
        .iter()
        .map(|v| ref_encode(&k.schema, v))
        .filter(|b| b.len() < 1500)
        .collect();
    e.sort();
    e.dedup();
    e
}

/// Well-formed frames with payloads of different sizes.
fn frames() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for k in message_kinds() {
        if let Some((mt, _)) = &k.framed {
            for tag in tags(&k) {
                for vals in [base_vals(&k, tag), extreme_vals(&k, tag)] {
                    let p = ref_encode(&k.schema, &vals);
                    v.push(frame_bytes(*mt, &p));
                }
            }
        }
    }
    v.push(frame_bytes(13, &[]));
    v.push(frame_bytes(25, &[0]));
    v.push(frame_bytes(20, &[0xff; 7]));
    // a payload that looks like frames
    v.push(frame_bytes(21, &frame_bytes(3, &[1, 2, 3, 4])));
    v
}

pub fn frame_bytes(mt: usize, p: &[u8]) -> Vec<u8> {
    let (e, t, c) = MSG_TYPES[mt];
    let word = e | if c { 0x8000 } else { 0 };
    let mut b = vec![word as u8, (word >> 8) as u8, t];
    b.extend_from_slice(&(p.len() as u32).to_le_bytes()[..3]);
    b.extend_from_slice(p);
    b
}

fn check_stream(fs: &[&[u8]], cut: usize, ctx: &mut Ctx) -> Res {
    let stream: Vec<u8> = fs.concat();
    let s = &stream[..cut];
    let mut p = ByteParser::new(s, 0);
    let mut at = 0usize;
    for (i, f) in fs.iter().enumerate() {
        let whole = at + f.len() <= cut;
        match Message::deserialize(&mut p) {
            Ok(m) if whole => {
                let mt = header_type(u16::from_le_bytes([f[0], f[1]]), f[2]).unwrap();
                if m.message_type != message_types()[mt] || m.payload != f[6..] {
                    return Err(format!(
                        "frame {} of the stream decodes to something else than was written",
                        i
                    ));
                }
                at += f.len();
                ctx.visit(h(&[41, i as u64, at as u64 & 0xffff]));
            }
            Ok(_) => return Err(format!("frame {} is cut but decodes (cut {})", i, cut)),
            Err(e) if whole => {
                return Err(format!("complete frame {} of the stream is refused: {}", i, e))
            }
            Err(_) => {
                ctx.visit(h(&[42, i as u64, (cut - at) as u64]));
                return Ok(());
            }
        }
    }
    // the stream is used up
    if at == cut {
        if p.next_by(1).is_ok() {
            return Err("frames do not consume the stream exactly".into());
        }
    }
    Ok(())
}

/// Zeroed memory that costs nothing until it is touched.
struct Zeroes(*mut u8, usize);
impl Zeroes {
    fn new(n: usize) -> Result<Zeroes, String> {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(format!("harness: cannot map {} bytes", n));
        }
        Ok(Zeroes(p as *mut u8, n))
    }
    fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
}
impl Drop for Zeroes {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.0 as *mut libc::c_void, self.1);
        }
    }
}

/// Messages at the beginning, in the middle and at the end of very long inputs.
fn far(kinds: &Kinds) -> Vec<Family> {
    let mut cases: Vec<(usize, Vec<u8>)> = vec![];
    for i in 0..kinds.len() {
        let es = small_encodings(&kinds[i]);
        for e in [es.first(), es.get(es.len() / 2), es.last()].into_iter().flatten() {
            if e.len() <= 70_000 {
                cases.push((i, e.clone()));
            }
        }
    }
    let cases = Arc::new(cases);
    let nc = cases.len();
    let mut out = vec![];
    for (name, tops) in [("long inputs", 10..27usize), ("huge inputs", 27..34)] {
        let serial = tops.start == 27;
        let mut places: Vec<(usize, usize)> = vec![];
        for k in tops {
            for d in [-1isize, 0, 1] {
                let n = ((1usize << k) as isize + d) as usize;
                // (bytes before, bytes after)
                places.extend([(0, n), (n, 0), (n, 5), (n, n), (n - 3, 70_000)]);
            }
        }
        let np = places.len();
        let (ks, cs) = (kinds.clone(), cases.clone());
        let f = Family::new(
            name,
            (nc * np * 2) as u64,
            "three encodings of every message x bytes before and after it, around every power of two",
            move |n, ctx| {
                let mut r = Radix(n);
                let (i, e) = &cs[r.take(nc)];
                let (before, after) = places[r.take(np)];
                let skip = r.take(2) == 1;
                if skip && before == 0 {
                    ctx.uncounted = true;
                    return Ok(());
                }
                let k = &ks[*i];
                ctx.note(|| format!("{} with {} bytes before and {} after", k.name, before, after));
                ctx.visit(h(&[44, k.id, before as u64, after as u64]));
                let mut z = Zeroes::new(before + e.len() + after)?;
                z.bytes()[before..before + e.len()].copy_from_slice(e);
                let (v, n) = ref_decode(k.id, &k.schema, e, ctx).map_err(|e| format!("harness: {}", e))?;
                match k.ops.decode_at(z.bytes(), before, skip, n)? {
                    Ok(d) if d.vals == v && d.consumed_exactly => Ok(()),
                    Ok(d) if d.vals == v => Err(format!("{} with {} bytes before and {} after: more or less than the message is consumed", k.name, before, after)),
                    Ok(_) => Err(format!("{} with {} bytes before and {} after decodes differently", k.name, before, after)),
                    Err(x) => Err(format!("{} with {} bytes before and {} after is refused: {}", k.name, before, after, x)),
                }
            },
        );
        out.push(if serial { f.serial() } else { f });
    }
    out
}

pub fn c04(tier: Tier) -> Property {
    let kinds: Kinds = Arc::new(all_kinds());
    let mut out = vec![];
    for i in 0..kinds.len() {
        let es = Arc::new(small_encodings(&kinds[i]));
        let mut starts = vec![0u64];
        for e in es.iter() {
            starts.push(starts.last().unwrap() + e.len() as u64);
        }
        let total = *starts.last().unwrap();
        let (ks, e1) = (kinds.clone(), es.clone());
        out.push(Family::new(
            format!("{} strict prefixes", kinds[i].name),
            total,
            "every strict prefix of every edge-value encoding",
            move |n, ctx| {
                let j = starts.partition_point(|s| *s <= n) - 1;
                let cut = (n - starts[j]) as usize;
                let k = &ks[i];
                ctx.note(|| format!("{} cut to {} of {}", k.name, cut, e1[j].len()));
                ctx.visit(h(&[k.id, cut as u64]));
                if k.ops.decode_only(&e1[j][..cut]) {
                    return Err(format!(
                        "{}: {} bytes of the {}-byte encoding {} decode as a complete message",
                        k.name,
                        cut,
                        e1[j].len(),
                        short_hex(&e1[j])
                    ));
                }
                Ok(())
            },
        ));
        let mut tails: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
        for a in EDGE {
            for b in EDGE {
                tails.push(vec![a, b]);
            }
        }
        for n in [4, 7, 32, 33, 64, 255, 256, 300] {
            tails.push(vec![0xff; n]);
            tails.push(vec![0; n]);
            tails.push(vec![0x61; n]);
        }
        let (ks, e1) = (kinds.clone(), es.clone());
        let nt = tails.len() as u64;
        out.push(Family::new(
            format!("{} continuations", kinds[i].name),
            es.len() as u64 * nt,
            "every edge-value encoding x 470 continuations",
            move |n, ctx| {
                let k = &ks[i];
                let e = &e1[(n / nt) as usize];
                let t = &tails[(n % nt) as usize];
                let mut b = e.clone();
                b.extend_from_slice(t);
                ctx.note(|| format!("{} + {} trailing bytes", k.name, t.len()));
                let (v, n) = ref_decode(k.id, &k.schema, e, ctx).map_err(|e| format!("harness: {}", e))?;
                match k.ops.decode(&b, n)? {
                    Ok(d) if d.vals == v && d.consumed_exactly => Ok(()),
                    Ok(d) if d.vals == v => Err(format!(
                        "{}: with {} following, more or less than the message is consumed",
                        k.name,
                        short_hex(t)
                    )),
                    _ => Err(format!(
                        "{}: {} decodes differently when followed by {}",
                        k.name,
                        short_hex(e),
                        short_hex(t)
                    )),
                }
            },
        ));
    }
    let fs = Arc::new(frames());
    let nf = fs.len();
    // every pair of frames cut everywhere
    for depth in 1..=tier.pick(2usize, 3) {
        let set: Vec<usize> = if depth < 3 {
            (0..nf).collect()
        } else {
            (0..nf).filter(|i| fs[*i].len() < 120).collect()
        };
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..depth {
            seqs = seqs
                .into_iter()
                .flat_map(|s| {
                    set.iter().map(move |i| {
                        let mut t = s.clone();
                        t.push(*i);
                        t
                    })
                })
                .collect();
        }
        let mut starts = vec![0u64];
        for s in &seqs {
            let l: usize = s.iter().map(|i| fs[*i].len()).sum();
            starts.push(starts.last().unwrap() + l as u64 + 1);
        }
        let total = *starts.last().unwrap();
        let f1 = fs.clone();
        out.push(Family::new(
            format!("streams of {} frames", depth),
            total,
            format!("every sequence of {} frames, cut at every byte", depth),
            move |n, ctx| {
                let j = starts.partition_point(|s| *s <= n) - 1;
                let cut = (n - starts[j]) as usize;
                let parts: Vec<&[u8]> = seqs[j].iter().map(|i| f1[*i].as_slice()).collect();
                ctx.note(|| format!("frames {:?} cut at {}", seqs[j], cut));
                check_stream(&parts, cut, ctx)
            },
        ));
    }
    // three short frames everywhere in the quick tier
    if !tier.thorough() {
        let short: Vec<usize> = {
            let mut v: Vec<usize> = (0..nf).collect();
            v.sort_by_key(|i| fs[*i].len());
            v.truncate(9);
            v
        };
        let maxl = short.iter().map(|i| fs[*i].len()).max().unwrap() * 3 + 1;
        let f1 = fs.clone();
        let m = short.len();
        out.push(Family::new(
            "streams of 3 short frames",
            (m * m * m * maxl) as u64,
            "every sequence of 3 of the 9 shortest frames, cut at every byte",
            move |n, ctx| {
                let mut r = Radix(n);
                let ix = [short[r.take(m)], short[r.take(m)], short[r.take(m)]];
                let cut = r.take(maxl);
                let parts: Vec<&[u8]> = ix.iter().map(|i| f1[*i].as_slice()).collect();
                if cut > parts.iter().map(|p| p.len()).sum::<usize>() {
                    return Ok(());
                }
                ctx.note(|| format!("frames {:?} cut at {}", ix, cut));
                check_stream(&parts, cut, ctx)
            },
        ));
    }
    // long payloads: the end of the frame is found for every length
    let ls = lengths((1 << 24) - 1, tier.pick(2100, 70_000))
        .into_iter()
        .filter(|n| *n < 70_000 || tier.thorough() || (*n & (*n + 1)) == 0 || *n == 1 << 23)
        .collect::<Vec<_>>();
    let nl = ls.len() as u64;
    out.push(Family::new(
        "payload lengths",
        nl * 4,
        "payload lengths dense and around every power of two; cut -1, 0, +1, followed by a frame",
        move |n, ctx| {
            let len = ls[(n % nl) as usize];
            let p: Vec<u8> = data(len, 2);
            let a = frame_bytes(15, &p);
            let b = frame_bytes(3, &[1, 2, 3, 4]);
            let cut = match n / nl {
                0 => a.len() - 1,
                1 => a.len(),
                2 => a.len() + 1,
                _ => a.len() + b.len(),
            };
            ctx.note(|| format!("payload {} cut {}", len, cut));
            check_stream(&[&a, &b], cut, ctx)
        },
    ));
    out.push(parser_sequences(tier));
    out.extend(far(&kinds));
    Property {
        families: out,
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C05

pub fn c05(tier: Tier) -> Property {
    let mut out = vec![];
    for (name, pl) in [("empty payload", 0usize), ("one byte", 1), ("payload", 3), ("32 bytes", 32), ("255 bytes", 255), ("256 bytes", 256), ("1000 bytes", 1000)] {
        out.push(Family::new(
            format!("all frame headers, {}", name),
            1 << 24,
            "every 16-bit word x every type byte",
            move |n, ctx| {
                let word = n as u16;
                let ty = (n >> 16) as u8;
                let mut b = vec![word as u8, (word >> 8) as u8, ty, pl as u8, (pl >> 8) as u8, 0];
                b.extend((0..pl).map(|i| i as u8 ^ 7));
                let got = stratumv2::codec::deserialize::<Message>(&b);
                if TEST_TYPES.contains(&ty) {
                    return Ok(());
                }
                ctx.note(|| format!("header {:04x} {:02x}", word, ty));
                let want = header_type(word, ty);
                ctx.visit(h(&[want.map_or(u64::MAX, |w| w as u64), (word >> 15) as u64]));
                match (want, got) {
                    (None, Err(_)) => Ok(()),
                    (Some(i), Ok(m)) if m.message_type == message_types()[i] => {
                        ctx.count("known header");
                        Ok(())
                    }
                    (Some(i), Ok(m)) => Err(format!(
                        "header {:04x}/{:02x} should be {:?} but decodes as {:?}",
                        word,
                        ty,
                        message_types()[i],
                        m.message_type
                    )),
                    (None, Ok(m)) => Err(format!(
                        "unassigned header {:04x}/{:02x} decodes as {:?}",
                        word, ty, m.message_type
                    )),
                    (Some(i), Err(e)) => Err(format!(
                        "header {:04x}/{:02x} of {:?} is refused: {}",
                        word,
                        ty,
                        message_types()[i],
                        e
                    )),
                }
            },
        ));
    }
    out.push(Family::new(
        "type numbers",
        1 << 23,
        "every 15-bit extension x every type byte through MessageType::new",
        |n, ctx| {
            let ext = (n & 0x7fff) as u16;
            let ty = (n >> 15) as u8;
            let got = MessageType::new(ext, ty);
            if TEST_TYPES.contains(&ty) {
                return Ok(());
            }
            let want = MSG_TYPES.iter().position(|(e, m, _)| *e == ext && *m == ty);
            ctx.visit(h(&[2, want.map_or(u64::MAX, |w| w as u64)]));
            ctx.note(|| format!("MessageType::new({:#x}, {:#x})", ext, ty));
            match (want, got) {
                (None, Err(_)) => Ok(()),
                (Some(i), Ok(m)) => {
                    let (e, t, c) = MSG_TYPES[i];
                    if m != message_types()[i] {
                        Err(format!("number {:#x}/{:#x} names {:?}", ext, ty, m))
                    } else if m.ext_type() != e || m.msg_type() != t || m.channel_bit() != c {
                        Err(format!("{:?} reports a wrong number or channel bit", m))
                    } else {
                        Ok(())
                    }
                }
                (None, Ok(m)) => Err(format!("unassigned number {:#x}/{:#x} names {:?}", ext, ty, m)),
                (Some(_), Err(e)) => Err(format!("number {:#x}/{:#x} is refused: {}", ext, ty, e)),
            }
        },
    ));
    let ls = lengths(70_000, tier.pick(600, 70_000));
    let nl = ls.len() as u64;
    out.push(Family::new(
        "framing",
        27 * nl,
        "every message type x payload length",
        move |n, ctx| {
            let i = (n % 27) as usize;
            let len = ls[(n / 27) as usize];
            let p = data(len, 2);
            let m = Message::new(message_types()[i], p.clone());
            let mut b = vec![];
            m.serialize(&mut b).map_err(|e| format!("cannot frame {} bytes: {}", len, e))?;
            ctx.visit(h(&[3, i as u64]));
            ctx.note(|| format!("frame {:?} with {} bytes", message_types()[i], len));
            if b != frame_bytes(i, &p) {
                return Err(format!(
                    "frame of {:?} with {} payload bytes has header {}",
                    message_types()[i],
                    len,
                    hex::encode(&b[..b.len().min(6)])
                ));
            }
            let back = stratumv2::codec::deserialize::<Message>(&b)
                .map_err(|e| format!("own frame refused: {}", e))?;
            if back.message_type != m.message_type {
                return Err("type changes in transit".into());
            }
            Ok(())
        },
    ));
    // one to one
    out.push(Family::new("pairs of types", 27 * 27, "all pairs", |n, ctx| {
        let ts = message_types();
        let (a, b) = (ts[(n % 27) as usize], ts[(n / 27) as usize]);
        ctx.visit(h(&[4, n]));
        let same = a.ext_type() == b.ext_type() && a.msg_type() == b.msg_type();
        if same != (n % 27 == n / 27) {
            return Err(format!("{:?} and {:?} share a number", a, b));
        }
        Ok(())
    }));
    Property {
        families: out,
        assumptions: vec!["type bytes 0xfe and 0xff (the crate's own test messages) are not judged".into()],
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(tier: Tier) -> Property {
    let kinds: Kinds = Arc::new(
        message_kinds()
            .into_iter()
            .filter(|k| k.framed.is_some())
            .collect(),
    );
    // payloads: encodings of every message, plus degenerate ones
    let mut payloads: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; 4], vec![0; 8], vec![0; 64]];
    for k in kinds.iter() {
        let es = small_encodings(k);
        let step = tier.pick((es.len() / 12).max(1), 1);
        for (i, e) in es.iter().enumerate() {
            if i % step == 0 {
                payloads.push(e.clone());
            }
        }
    }
    payloads.sort();
    payloads.dedup();
    let np = payloads.len();
    let nk = kinds.len();
    let mut types: Vec<MessageType> = message_types().to_vec();
    types.push(MessageType::TestMessage1);
    types.push(MessageType::TestMessage2);
    let nt = types.len();
    let ks = kinds.clone();
    let types: Arc<Vec<MessageType>> = Arc::new(types);
    let types2 = types.clone();
    let mut out = vec![Family::new(
        "unframe combinations",
        (nk * nt * np) as u64,
        format!("{} messages x {} frame types x {} payloads", nk, nt, np),
        move |n, ctx| {
            let mut r = Radix(n);
            let k = &ks[r.take(nk)];
            let ti = r.take(nt);
            let p = &payloads[r.take(np)];
            let (own, f) = k.framed.as_ref().unwrap();
            let m = Message::new(types[ti], p.clone());
            ctx.note(|| format!("open {:?} frame as {}", types[ti], k.name));
            ctx.visit(h(&[k.id, ti as u64]));
            let got = f.unframe(&m)?;
            if ti != *own {
                return match got {
                    Err(_) => Ok(()),
                    Ok(_) => Err(format!(
                        "a frame of type {:?} opens as {} (payload {})",
                        types[ti],
                        k.name,
                        short_hex(p)
                    )),
                };
            }
            match (ref_decode(k.id, &k.schema, p, ctx), got) {
                (Err(_), Err(_)) => Ok(()),
                (Ok((v, _)), Ok(g)) if v == g => Ok(()),
                (Ok((_, n)), Err(_)) if n < p.len() => Ok(()), // trailing bytes: not judged here
                (w, g) => Err(format!(
                    "{} frame with payload {}: expected {:?}, got {:?}",
                    k.name,
                    short_hex(p),
                    w.map(|x| show_vals(&x.0)),
                    g.map(|x| show_vals(&x)).map_err(|e| e.to_string())
                )),
            }
        },
    )];
    // A payload that the opened message accepts, followed by ever more bytes.
    let ks = kinds.clone();
    let types = types2;
    const TAILS: [usize; 14] = [1, 2, 3, 31, 32, 33, 255, 1000, 4096, 8192, 9000, 0x1_0000, 0x2_0000, 0xff_ffff];
    const LENS: usize = TAILS.len() * 2;
    out.push(
        Family::new(
            "unframe long payloads",
            (nk * nt * LENS) as u64,
            format!("{} messages x {} frame types x {} lengths of what follows a payload that the message accepts (zeroes and ones)", nk, nt, TAILS.len()),
            move |n, ctx| {
                let mut r = Radix(n);
                let k = &ks[r.take(nk)];
                let ti = r.take(nt);
                let len = TAILS[r.take(TAILS.len())];
                let fill = [0u8, 1][r.take(2)];
                let (own, f) = k.framed.as_ref().unwrap();
                let mut seen = 0;
                for e in small_encodings(k).iter().take(if len > 0x2_0000 { 1 } else { 3 }) {
                    let mut p = e.clone();
                    let total = if len == 0xff_ffff { len } else { p.len() + len };
                    p.resize(total, fill);
                    let m = Message::new(types[ti], p);
                    ctx.visit(h(&[k.id, ti as u64, len as u64]));
                    seen += 1;
                    match f.unframe(&m)? {
                        Ok(_) if ti != *own => {
                            return Err(format!("a frame of type {:?} with {} bytes of payload opens as {}", types[ti], total, k.name));
                        }
                        Ok(v) => {
                            // trailing bytes may be refused; if not, they change nothing
                            let (w, _) = ref_decode(k.id, &k.schema, e, ctx).map_err(|e| format!("harness: {:?}", e))?;
                            if v != w {
                                return Err(format!("{} with {} more bytes opens as {}", k.name, len, show_vals(&v)));
                            }
                        }
                        Err(_) => {}
                    }
                }
                if seen == 0 {
                    return Err(format!("harness: no encodings of {}", k.name));
                }
                Ok(())
            },
        )
        .hang(120),
    );
    // labels
    let mut vals: Vec<(usize, Vec<Val>)> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        for v in small_values(k) {
            vals.push((i, v));
        }
    }
    let ks = kinds.clone();
    out.push(Family::new(
        "labels",
        vals.len() as u64,
        "every message with edge values is labelled with its own type, also after a trip over the wire",
        move |n, ctx| {
            let (i, v) = &vals[n as usize];
            let k = &ks[*i];
            let (own, f) = k.framed.as_ref().unwrap();
            let ty = message_types()[*own];
            ctx.visit(h(&[k.id, 77]));
            ctx.note(|| format!("frame {}", k.name));
            if f.message_type() != ty {
                return Err(format!("{} claims to be {:?}", k.name, f.message_type()));
            }
            let m = match f.frame(v) {
                Ok(Ok(m)) => m,
                Ok(Err(e)) | Err(e) => return Err(format!("{} cannot be framed: {}", k.name, e)),
            };
            if m.message_type != ty {
                return Err(format!("{} is framed as {:?}", k.name, m.message_type));
            }
            let mut b = vec![];
            m.serialize(&mut b).map_err(|e| e.to_string())?;
            let back = stratumv2::codec::deserialize::<Message>(&b).map_err(|e| e.to_string())?;
            for k2 in ks.iter() {
                let (own2, f2) = k2.framed.as_ref().unwrap();
                if own2 != own && f2.unframe(&back)?.is_ok() {
                    return Err(format!("a received {} opens as {}", k.name, k2.name));
                }
            }
            match f.unframe(&back)? {
                Ok(x) if x == *v => Ok(()),
                _ => Err(format!("a received {} does not open as itself", k.name)),
            }
        },
    ));
    Property {
        families: out,
        assumptions: vec![
            "mining and job negotiation setup messages share one type number; the protocol byte tells them apart".into(),
        ],
    }
}

// ---------------------------------------------------------------- C07

/// A sink that counts and keeps the first bytes; it gives up far beyond any legal frame.
struct Counter {
    n: u64,
    head: Vec<u8>,
}
impl Write for Counter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.n > 1 << 26 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.n += b.len() as u64;
        if self.head.len() < 16 {
            self.head.extend_from_slice(&b[..b.len().min(16)]);
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c07(tier: Tier) -> Property {
    let mut out = vec![];
    let kinds: Kinds = Arc::new(all_kinds());
    // text and byte fields in every message and type, through constructor and decoder
    for i in 0..kinds.len() {
        let k = &kinds[i];
        for tag in tags(k) {
            let fields = k.schema.fields(tag);
            for (j, (name, t)) in fields.iter().enumerate() {
                let (max, lb, is_text) = match t {
                    Ty::Str(m) => (*m, 1usize, true),
                    Ty::Bytes { len, max } => (*max, *len, false),
                    _ => continue,
                };
                let mut ls: Vec<usize> = if max < 300 {
                    (0..=max + 300).collect()
                } else {
                    let mut l = lengths(max, tier.pick(300, if max < 70_000 { max } else { 3000 }));
                    l.extend(max + 1..=max + 40);
                    l.push(2 * max);
                    l.push(2 * max + 2);
                    l
                };
                for over in [256, 511, 512, 1000, 4096, 65535, 65536, 65537, 65536 + 20, 131072 + 7] {
                    if over > max {
                        ls.push(over);
                    }
                }
                if k.name == "Message" {
                    ls.retain(|n| *n <= 70_000 || *n + 2 >= max);
                } else if !tier.thorough() {
                    ls.retain(|n| *n <= 140_000 || *n + 2 >= max);
                }
                ls.sort_unstable();
                ls.dedup();
                let pats: usize = if is_text { TEXT_PATTERNS } else { 2 };
                let nl = ls.len();
                let base = base_vals(k, tag);
                let ks = kinds.clone();
                let fcopy = fields.clone();
                out.push(Family::new(
                    format!("{}[{}].{} lengths", k.name, tag, name),
                    (nl * pats) as u64,
                    format!("limit {}: built and decoded at {} lengths", max, nl),
                    move |n, ctx| {
                        let k = &ks[i];
                        let mut r = Radix(n);
                        let len = ls[r.take(nl)];
                        let pat = r.take(pats);
                        let content = if is_text { text(len, pat) } else { data(len, pat) };
                        let mut v = base.clone();
                        v[j] = Val::B(content.clone());
                        ctx.note(|| format!("{} field {} of {} bytes", k.name, j, len));
                        ctx.visit(h(&[k.id, j as u64, (len <= max) as u64, len.min(600) as u64]));
                        let ok_rule = len > max || k.schema.rule(&v);
                        if k.name != "Message" {
                            match k.ops.build(&v)? {
                                Ok(_) if len > max => {
                                    return Err(format!(
                                        "{}: a field of {} bytes is accepted (limit {})",
                                        k.name, len, max
                                    ))
                                }
                                Err(e) if len <= max && ok_rule => {
                                    return Err(format!(
                                        "{}: a field of {} bytes is refused (limit {}): {}",
                                        k.name, len, max, e
                                    ))
                                }
                                Ok(x) if x != v => {
                                    return Err(format!("{}: constructor changes the value", k.name))
                                }
                                _ => {}
                            }
                        }
                        if len <= max && ok_rule {
                            // the header equals the data that follows
                            let mut w = vec![];
                            match k.ops.encode(&v, &mut w) {
                                Ok(Ok(_)) => {}
                                _ => return Err(format!("{}: {} bytes do not encode", k.name, len)),
                            }
                            if w != ref_encode(&k.schema, &v) {
                                return Err(format!(
                                    "{}: length header or data wrong for {} bytes: {}",
                                    k.name,
                                    len,
                                    short_hex(&w)
                                ));
                            }
                            ctx.visit(h(&[k.id, j as u64, 9, len.min(600) as u64]));
                        }
                        // received: a header claiming this length with the data present
                        if (len as u64) < 1u64 << (8 * lb) {
                            let mut b = vec![];
                            for (q, (x, (_, t))) in v.iter().zip(&fcopy).enumerate() {
                                if q == j {
                                    b.extend_from_slice(&(len as u64).to_le_bytes()[..lb]);
                                    b.extend_from_slice(&content);
                                } else {
                                    b.extend(ref_encode(
                                        &Schema::Struct(vec![("x", *t)], no_rule),
                                        std::slice::from_ref(x),
                                    ));
                                }
                            }
                            judge(k, &b, ctx)?;
                        }
                        Ok(())
                    },
                ));
            }
        }
    }
    // U24 numbers
    out.push(Family::new(
        "U24 range",
        1 << 20,
        "all numbers with at most two bytes off a background, and 2^k +- 3",
        |n, ctx| {
            use std::convert::TryFrom;
            use stratumv2::types::U24;
            let x = if n < WORD2 { word2(n) } else { let e = word_edges(); e[((n - WORD2) as usize) % e.len()] };
            let ok = x < 1 << 24;
            ctx.visit(h(&[5, ok as u64]));
            let a = U24::new(x as u32).map(|u| u.0 as u64);
            let b = U24::try_from(x as usize).map(|u| u.0 as u64);
            let c = U24::try_from(x as u32).map(|u| u.0 as u64);
            for r in [a, b, c] {
                match r {
                    Ok(y) if ok && y == x => {}
                    Err(_) if !ok => {}
                    _ => return Err(format!("U24 of {:#x} is wrong", x)),
                }
            }
            if U24::try_from((x as usize) + (1usize << 32)).is_ok() || U24::try_from((x as usize) << 24 | 1 << 60).is_ok() {
                return Err(format!("U24 of {:#x} is accepted", (x as usize) + (1usize << 32)));
            }
            Ok(())
        },
    ));
    // oversized frames
    let g = 1usize << 32;
    let mut sizes: Vec<usize> = vec![
        (1 << 24) - 2,
        (1 << 24) - 1,
        1 << 24,
        (1 << 24) + 1,
        (1 << 24) + 255,
        (1 << 24) + 65536,
        (1 << 25) - 1,
        1 << 25,
        (1 << 28) + 3,
        (1 << 31) - 1,
        1 << 31,
        g - 1,
        g,
        g + 1,
        g + 2,
        g + 255,
        g + 65_535,
        g + (1 << 24) - 1,
        g + (1 << 24),
    ];
    if tier.thorough() {
        sizes.extend_from_slice(&[2 * g, 2 * g + 9, 3 * g + 1, (1 << 26), (1 << 27) + 1]);
    }
    let ns = sizes.len() as u64;
    out.push(
        Family::new(
            "frame payload limit",
            ns,
            "payload sizes around 2^24, 2^25, 2^31 and 2^32",
            move |n, ctx| {
                let len = sizes[n as usize];
                ctx.note(|| format!("frame of {} payload bytes", len));
                let m = Message::new(MessageType::NewExtendedMiningJob, vec![0u8; len]);
                let mut w = Counter { n: 0, head: vec![] };
                let r = m.serialize(&mut w);
                let ok = len < 1 << 24;
                ctx.visit(h(&[6, len as u64]));
                match r {
                    Ok(c) if ok => {
                        if c != len + 6 || w.n != len as u64 + 6 || w.head[3..6] != (len as u32).to_le_bytes()[..3] {
                            return Err(format!("frame of {} payload bytes is wrong", len));
                        }
                        Ok(())
                    }
                    Err(e) if ok => Err(format!("frame of {} payload bytes refused: {}", len, e)),
                    Ok(_) => Err(format!(
                        "frame of {} payload bytes is accepted, header {}",
                        len,
                        hex::encode(&w.head)
                    )),
                    Err(_) if w.n != 0 => Err(format!(
                        "frame of {} payload bytes is refused only after {} bytes were written",
                        len, w.n
                    )),
                    Err(_) => Ok(()),
                }
            },
        )
        .serial()
        .hang(300),
    );
    Property {
        families: out,
        assumptions: vec!["field structs are built through constructors or decoders, not by writing their public length field".into()],
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Short(usize),
    Interrupted,
    Zero,
    Err(std::io::ErrorKind),
    /// An error of the operating system.
    Os(i32),
}

struct FaultyWriter {
    /// (call index, fault)
    script: Vec<(usize, Fault)>,
    /// at most this many bytes per call (0: no limit)
    cap: usize,
    calls: usize,
    got: Vec<u8>,
    fatal: bool,
}
impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let c = self.calls;
        self.calls += 1;
        for (at, f) in &self.script {
            if *at == c {
                match *f {
                    Fault::Short(n) => {
                        let n = n.min(b.len()).max(1);
                        self.got.extend_from_slice(&b[..n]);
                        return Ok(n);
                    }
                    Fault::Interrupted => {
                        return Err(std::io::Error::from(std::io::ErrorKind::Interrupted))
                    }
                    Fault::Zero => {
                        self.fatal = true;
                        return Ok(0);
                    }
                    Fault::Err(k) => {
                        self.fatal = true;
                        return Err(std::io::Error::from(k));
                    }
                    Fault::Os(n) => {
                        let e = std::io::Error::from_raw_os_error(n);
                        // An interrupted call is to be repeated.
                        self.fatal = e.kind() != std::io::ErrorKind::Interrupted;
                        return Err(e);
                    }
                }
            }
        }
        let n = if self.cap == 0 { b.len() } else { self.cap.min(b.len()) };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const FAULTS: [Fault; 9] = [
    Fault::Short(1),
    Fault::Short(2),
    Fault::Short(3),
    Fault::Interrupted,
    Fault::Zero,
    Fault::Err(std::io::ErrorKind::BrokenPipe),
    Fault::Err(std::io::ErrorKind::WouldBlock),
    Fault::Err(std::io::ErrorKind::WriteZero),
    Fault::Err(std::io::ErrorKind::Other),
];

fn faulty(
    what: &str,
    want: &[u8],
    w: &mut FaultyWriter,
    r: Result<usize, String>,
    ctx: &mut Ctx,
) -> Res {
    ctx.visit(h(&[hs(what), w.calls as u64, w.got.len() as u64, r.is_ok() as u64]));
    match r {
        Ok(n) => {
            ctx.count("completed");
            if w.got != want {
                Err(format!(
                    "{}: reports success but delivered {} of {} bytes ({} vs {})",
                    what,
                    w.got.len(),
                    want.len(),
                    short_hex(&w.got),
                    short_hex(want)
                ))
            } else if n != want.len() {
                Err(format!("{}: reports {} bytes, delivered {}", what, n, want.len()))
            } else if w.fatal {
                Err(format!("{}: a sink failure is not reported", what))
            } else {
                Ok(())
            }
        }
        Err(e) => {
            ctx.count("reported failure");
            if !want.starts_with(&w.got) {
                Err(format!("{}: delivered bytes that are not a prefix", what))
            } else if !w.fatal {
                Err(format!("{}: fails ({}) although the sink did not", what, e))
            } else {
                Ok(())
            }
        }
    }
}

type Target = (String, Vec<u8>, Box<dyn Fn(&mut FaultyWriter) -> Result<usize, String> + Send + Sync>);

fn write_targets() -> Vec<Target> {
    use stratumv2::noise::*;
    let mut out: Vec<Target> = vec![];
    for k in all_kinds() {
        let name = k.name;
        for tag in tags(&k) {
            let mut set: Vec<Vec<Val>> = vec![base_vals(&k, tag), extreme_vals(&k, tag)];
            // all variable fields empty where allowed
            let b = base_vals(&k, tag);
            let v: Vec<Val> = b
                .iter()
                .zip(k.schema.fields(tag))
                .map(|(v, (n, t))| match t {
                    Ty::Str(_) | Ty::Bytes { .. } if n != "vendor" && n != "firmware" => Val::B(vec![]),
                    _ => v.clone(),
                })
                .collect();
            set.push(v);
            set.dedup();
            for (vi, v) in set.into_iter().enumerate() {
                if !valid(&k.schema, &v) {
                    continue;
                }
                let want = ref_encode(&k.schema, &v);
                let k2 = kind(name);
                out.push((
                    format!("{}[{}] value {}", name, tag, vi),
                    want,
                    Box::new(move |w| match k2.ops.encode(&v, w) {
                        Ok(Ok(n)) => Ok(n),
                        Ok(Err(e)) => Err(e.to_string()),
                        Err(e) => Err(format!("cannot build: {}", e)),
                    }),
                ));
            }
        }
    }
    let key: [u8; 32] = core::array::from_fn(|k| k as u8 + 9);
    let pk = StaticPublicKey::from_bytes(key).unwrap();
    out.push((
        "StaticPublicKey".into(),
        key.to_vec(),
        Box::new(move |w| pk.serialize(w).map_err(|e| e.to_string())),
    ));
    let mut want = vec![3, 0, 5, 0, 0, 0, 6, 0, 0, 0];
    want.extend_from_slice(&key);
    let w2 = want.clone();
    out.push((
        "SignedCertificate".into(),
        want,
        Box::new(move |w| {
            SignedCertificate {
                version: 3,
                valid_from: 5,
                not_valid_after: 6,
                public_key: &pk,
            }
            .serialize(w)
            .map_err(|e| e.to_string())
        }),
    ));
    out.push((
        "CertificateFormat".into(),
        w2,
        Box::new(move |w| {
            let m = SignatureNoiseMessage {
                version: 3,
                valid_from: 5,
                not_valid_after: 6,
                signature: Signature::from_bytes(&[1u8; 64]).unwrap(),
            };
            let auth = stratumv2::bitcoin::util::base58::encode_slice(
                &hex::decode("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a").unwrap(),
            );
            CertificateFormat::new(&auth, &pk, &m)
                .unwrap()
                .serialize(w)
                .map_err(|e| e.to_string())
        }),
    ));
    out
}

fn run_target(t: &Target, script: Vec<(usize, Fault)>, cap: usize, ctx: &mut Ctx) -> Res {
    let mut w = FaultyWriter {
        script,
        cap,
        calls: 0,
        got: vec![],
        fatal: false,
    };
    ctx.note(|| format!("{} faults {:?} cap {}", t.0, w.script, cap));
    let r = (t.2)(&mut w);
    faulty(&t.0, &t.1, &mut w, r, ctx)
}

pub fn c10(tier: Tier) -> Property {
    let targets = Arc::new(write_targets());
    let nt = targets.len();
    let mut out = vec![];
    // the number of writer calls without faults, with some slack for retries
    let calls = 30usize;
    let t1 = targets.clone();
    out.push(Family::new(
        "constant short writes",
        (nt * 1400) as u64,
        "at most k bytes per call, k = 1..=1400",
        move |n, ctx| {
            let t = &t1[(n as usize) % nt];
            let k = (n as usize) / nt + 1;
            if k > t.1.len() + 2 {
                return Ok(());
            }
            run_target(t, vec![], k, ctx)
        },
    ));
    let nf = FAULTS.len();
    let t1 = targets.clone();
    out.push(Family::new(
        "single faults",
        (nt * calls * nf * 4) as u64,
        "every writer call x every fault x cap 0, 1, 2, 7",
        move |n, ctx| {
            let mut r = Radix(n);
            let t = &t1[r.take(nt)];
            let c = r.take(calls);
            let f = FAULTS[r.take(nf)];
            let cap = [0, 1, 2, 7][r.take(4)];
            run_target(t, vec![(c, f)], cap, ctx)
        },
    ));
    let t1 = targets.clone();
    let caps: &'static [usize] = if tier.thorough() { &[0, 1, 2, 3, 7, 64] } else { &[0, 1, 3] };
    out.push(Family::new(
        "double faults",
        (nt * calls * calls * nf * nf * caps.len()) as u64,
        "every pair of writer calls x every pair of faults",
        move |n, ctx| {
            let mut r = Radix(n);
            let t = &t1[r.take(nt)];
            let (a, b) = (r.take(calls), r.take(calls));
            let (f, g) = (FAULTS[r.take(nf)], FAULTS[r.take(nf)]);
            let cap = caps[r.take(caps.len())];
            if b <= a {
                return Ok(());
            }
            run_target(t, vec![(a, f), (b, g)], cap, ctx)
        },
    ));
    // every kind of failure
    use std::io::ErrorKind as K;
    let mut fails: Vec<Fault> = (1..=133).map(Fault::Os).collect();
    fails.extend(
        [
            K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::HostUnreachable, K::NetworkUnreachable,
            K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::NetworkDown, K::BrokenPipe, K::AlreadyExists,
            K::WouldBlock, K::NotADirectory, K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StaleNetworkFileHandle,
            K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::StorageFull, K::NotSeekable, K::QuotaExceeded, K::FileTooLarge,
            K::ResourceBusy, K::ExecutableFileBusy, K::Deadlock, K::TooManyLinks, K::ArgumentListTooLong, K::Unsupported, K::UnexpectedEof,
            K::OutOfMemory, K::Other,
        ]
        .map(Fault::Err),
    );
    let nk = fails.len();
    let t1 = targets.clone();
    out.push(Family::new(
        "every kind of failure",
        (nt * calls * nk * 2) as u64,
        "every writer call x every error kind and every error number of the system x cap 0, 5",
        move |n, ctx| {
            let mut r = Radix(n);
            let t = &t1[r.take(nt)];
            let c = r.take(calls);
            let f = fails[r.take(nk)];
            run_target(t, vec![(c, f)], [0, 5][r.take(2)], ctx)
        },
    ));
    // a fatal fault exactly at every byte offset
    let t1 = targets.clone();
    out.push(Family::new(
        "failure at every offset",
        (nt * 1400 * 3) as u64,
        "one byte per call, failing at call k",
        move |n, ctx| {
            let mut r = Radix(n);
            let t = &t1[r.take(nt)];
            let c = r.take(1400);
            let f = [Fault::Zero, Fault::Err(std::io::ErrorKind::BrokenPipe), Fault::Interrupted][r.take(3)];
            if c > t.1.len() {
                return Ok(());
            }
            run_target(t, vec![(c, f)], 1, ctx)
        },
    ));
    // Long fields.
    let mut long: Vec<(&'static str, u64, usize, usize)> = vec![];
    for k in all_kinds() {
        for tag in tags(&k) {
            for (i, (_, t)) in k.schema.fields(tag).iter().enumerate() {
                let max = match t {
                    Ty::Bytes { max, .. } => *max,
                    Ty::Str(max) => *max,
                    _ => continue,
                };
                for len in [max, 254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 70_001, 131_072, 1 << 20] {
                    if len <= max && !(len == max && max < 300 && len < 250) {
                        long.push((k.name, tag, i, len));
                    }
                }
            }
        }
    }
    long.sort();
    long.dedup();
    let nl = long.len();
    let long_caps = [0usize, 255, 4096, 65_535, 65_536];
    out.push(Family::new(
        "long fields",
        (nl * long_caps.len() * 3) as u64,
        "every variable-length field at boundary lengths up to its limit, sinks taking everything or fixed blocks, with and without a fault",
        move |n, ctx| {
            let mut r = Radix(n);
            let (name, tag, field, len) = long[r.take(nl)];
            let cap = long_caps[r.take(long_caps.len())];
            let fault = r.take(3);
            let k = kind(name);
            let mut v = base_vals(&k, tag);
            let at = field + v.len() - k.schema.fields(tag).len();
            v[at] = match k.schema.fields(tag)[field].1 {
                Ty::Str(_) => Val::B(crate::domain::text(len, 0)),
                _ => Val::B(data(len, 1)),
            };
            if !valid(&k.schema, &v) {
                ctx.uncounted = true;
                return Ok(());
            }
            let want = ref_encode(&k.schema, &v);
            let mut w = FaultyWriter {
                script: match fault {
                    0 => vec![],
                    1 => vec![(1, Fault::Interrupted), (2, Fault::Short(1))],
                    _ => vec![(3, Fault::Err(std::io::ErrorKind::BrokenPipe))],
                },
                cap,
                calls: 0,
                got: vec![],
                fatal: false,
            };
            ctx.note(|| format!("{}[{}], field {} of {} bytes, {} per call", name, tag, field, len, cap));
            let r = match k.ops.encode(&v, &mut w) {
                Ok(Ok(n)) => Ok(n),
                Ok(Err(e)) => Err(e.to_string()),
                Err(e) => return Err(format!("{}: cannot build with a field of {} bytes: {}", name, len, e)),
            };
            faulty(name, &want, &mut w, r, ctx)
        },
    ));
    // long payloads over sinks that take blocks
    let ls = [65_535usize, 65_536, 70_001, (1 << 24) - 1];
    let caps = [1usize << 9, 4096, 8192, 65_535, 65_536, 1 << 20];
    out.push(Family::new(
        "long frames",
        (ls.len() * caps.len() * 2) as u64,
        "frames up to the maximum over sinks taking fixed blocks",
        move |n, ctx| {
            let mut r = Radix(n);
            let len = ls[r.take(ls.len())];
            let cap = caps[r.take(caps.len())];
            let intr = r.take(2) == 1;
            let p = data(len, 2);
            let want = frame_bytes(15, &p);
            let m = Message::new(message_types()[15], p);
            let mut w = FaultyWriter {
                script: if intr { vec![(4, Fault::Interrupted), (5, Fault::Short(1))] } else { vec![] },
                cap,
                calls: 0,
                got: vec![],
                fatal: false,
            };
            ctx.note(|| format!("frame of {} bytes, {} per call", len, cap));
            let r = m.serialize(&mut w).map_err(|e| e.to_string());
            faulty("Message", &want, &mut w, r, ctx)
        },
    ));
    Property {
        families: out,
        assumptions: vec!["sinks follow the io::Write contract".into()],
    }
}

// ---------------------------------------------------------------- C11

fn peak_ok(k: &Kind, b: &[u8], ctx: &mut Ctx) -> Res {
    ctx.note(|| format!("decode {} from {} bytes {}", k.name, b.len(), short_hex(b)));
    crate::alloc::begin();
    let ok = k.ops.decode_only(b);
    let peak = crate::alloc::end();
    let bound = 4 * b.len() + 8192;
    ctx.visit(h(&[k.id, ok as u64, (peak / 256) as u64]));
    if peak > bound {
        return Err(format!(
            "{}: decoding {} bytes ({}) takes {} bytes of memory",
            k.name,
            b.len(),
            short_hex(b),
            peak
        ));
    }
    Ok(())
}

pub fn c11(tier: Tier) -> Property {
    let kinds: Kinds = Arc::new(all_kinds());
    let mut out = vec![];
    for i in 0..kinds.len() {
        let k = &kinds[i];
        for len in 0..=tier.pick(2, 3) {
            let ks = kinds.clone();
            out.push(Family::new(
                format!("{} memory, byte strings of length {}", k.name, len),
                256u64.pow(len as u32),
                "complete",
                move |n, ctx| peak_ok(&ks[i], &n.to_le_bytes()[..len], ctx),
            ));
        }
        for (si, s) in seeds(k).into_iter().enumerate() {
            let ks = kinds.clone();
            let s = Arc::new(s);
            let s1 = s.clone();
            let vals: &'static [u8] = &[0, 1, 0x20, 0x7f, 0x80, 0xfe, 0xff];
            out.push(Family::new(
                format!("{} memory, seed {} substitutions", k.name, si),
                (s.len() * vals.len()) as u64,
                "every position x edge byte",
                move |n, ctx| {
                    let mut b = s1.to_vec();
                    b[(n as usize) / vals.len()] = vals[(n as usize) % vals.len()];
                    peak_ok(&ks[i], &b, ctx)
                },
            ));
            if s.len() <= 300 {
                let ks = kinds.clone();
                let s1 = s.clone();
                let l = s.len();
                out.push(Family::new(
                    format!("{} memory, seed {} substitution and cut", k.name, si),
                    (l * vals.len() * (l + 1)) as u64,
                    "every position x edge byte x cut",
                    move |n, ctx| {
                        let mut r = Radix(n);
                        let p = r.take(l);
                        let x = vals[r.take(vals.len())];
                        let cut = r.take(l + 1);
                        let mut b = s1.to_vec();
                        b[p] = x;
                        b.truncate(cut);
                        peak_ok(&ks[i], &b, ctx)
                    },
                ));
            }
        }
        // every claimed length over every length field with little data
        for tag in tags(k) {
            let fields = k.schema.fields(tag);
            for (j, (name, t)) in fields.iter().enumerate() {
                let lb = match t {
                    Ty::Str(_) | Ty::Code(_) => 1,
                    Ty::Bytes { len, .. } => *len,
                    _ => continue,
                };
                let mut head = vec![];
                for (v, (_, t)) in base_vals(k, tag).iter().zip(&fields).take(j) {
                    head.extend(ref_encode(
                        &Schema::Struct(vec![("x", *t)], no_rule),
                        std::slice::from_ref(v),
                    ));
                }
                let ks = kinds.clone();
                let size: u64 = if lb == 3 { 1 << 20 } else { 1u64 << (8 * lb) };
                let avails = [0usize, 1, 5, 100, 1000];
                out.push(Family::new(
                    format!("{}[{}].{} memory, claimed lengths", k.name, tag, name),
                    size * 5,
                    "claimed lengths (24-bit lengths in steps of 16 and the top 2^10) x available data",
                    move |n, ctx| {
                        let mut r = Radix(n);
                        let a = avails[r.take(5)];
                        let c = r.0;
                        let c = if lb == 3 {
                            if c < 1 << 10 { (1 << 24) - 1 - c } else { c * 16 + 15 }
                        } else {
                            c
                        };
                        let mut b = head.clone();
                        b.extend_from_slice(&c.to_le_bytes()[..lb]);
                        b.resize(b.len() + a, b'q');
                        peak_ok(&ks[i], &b, ctx)
                    },
                ));
            }
        }
    }
    // whatever was decoded before
    let mut earlier: Vec<(usize, Vec<u8>)> = vec![];
    let mut later: Vec<(usize, Vec<u8>)> = vec![];
    for i in 0..kinds.len() {
        let k = &kinds[i];
        for s in seeds(k) {
            earlier.push((i, s[..s.len() - 1].to_vec()));
            if s.len() < 1000 {
                later.push((i, s));
            }
        }
        for tag in tags(k) {
            let fields = k.schema.fields(tag);
            for (j, (_, t)) in fields.iter().enumerate() {
                let lb = match t {
                    Ty::Str(_) | Ty::Code(_) => 1,
                    Ty::Bytes { len, .. } => *len,
                    _ => continue,
                };
                let mut b = vec![];
                for (v, (_, t)) in base_vals(k, tag).iter().zip(&fields).take(j) {
                    b.extend(ref_encode(&Schema::Struct(vec![("x", *t)], no_rule), std::slice::from_ref(v)));
                }
                b.resize(b.len() + lb, 0xff);
                earlier.push((i, b));
            }
        }
    }
    earlier.push((kinds.iter().position(|k| k.name == "U24").unwrap(), vec![0xff; 3]));
    earlier.push((kinds.iter().position(|k| k.name == "B0_16M").unwrap(), {
        let mut b = vec![0, 0, 0x40];
        b.resize(3 + 0x40_0000, 1);
        b
    }));
    let (ks, ne) = (kinds.clone(), earlier.len());
    out.push(Family::new(
        "memory, after other messages",
        (ne * ne) as u64,
        "after every pair of messages, complete, cut or claiming the greatest length, every message",
        move |n, ctx| {
            for x in [n as usize % ne, n as usize / ne] {
                let (i, b) = &earlier[x];
                ks[*i].ops.decode_only(b);
            }
            for (i, b) in &later {
                peak_ok(&ks[*i], b, ctx)?;
            }
            Ok(())
        },
    ));
    // complete long values stay within the bound too
    let ls = [1000usize, 65_535, 65_536, 1 << 20, (1 << 24) - 1];
    out.push(Family::new(
        "memory, long values",
        10,
        "long byte sequences and frames",
        move |n, ctx| {
            let len = ls[(n % 5) as usize];
            let k = kind(if n < 5 { "B0_16M" } else { "Message" });
            let mut b = if n < 5 { vec![] } else { vec![0, 0x80, 0x1f] };
            b.extend_from_slice(&(len as u32).to_le_bytes()[..3]);
            b.resize(b.len() + len, 1);
            peak_ok(&k, &b, ctx)
        },
    ));
    Property {
        families: out,
        assumptions: vec!["memory is what the decoder requests from the global allocator; bound 4 x input + 8 KiB".into()],
    }
}
