//! C09 integers, C10 bit strings, C14 strings and times.
use crate::cmp::*;
use crate::entry::*;
use crate::model;
use crate::runner::*;
use crate::spaces::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use der_parser::nom;

// ------------------------------------------------------------------ C09
/// The value of two's-complement octets, when it fits i128 (own arithmetic)
fn value(c: &[u8]) -> Option<i128> {
    if c.is_empty() {
        return None;
    }
    let neg = c[0] & 0x80 != 0;
    let pad = if neg { 0xff } else { 0 };
    let mut k = 0;
    while k + 1 < c.len() && c[k] == pad && (c[k + 1] & 0x80 != 0) == neg {
        k += 1;
    }
    let m = &c[k..];
    if m.len() > 16 {
        return None;
    }
    let mut v: i128 = if neg { -1 } else { 0 };
    for &b in m {
        v = v << 8 | b as i128;
    }
    Some(v)
}
fn minimal(c: &[u8]) -> &[u8] {
    let mut k = 0;
    while k + 1 < c.len() && ((c[k] == 0 && c[k + 1] < 0x80) || (c[k] == 0xff && c[k + 1] >= 0x80)) {
        k += 1;
    }
    &c[k..]
}

struct Target {
    name: &'static str,
    min: i128,
    max: i128,
    unsigned: bool,
}
const TARGETS: [Target; 4] = [
    Target { name: "u32", min: 0, max: u32::MAX as i128, unsigned: true },
    Target { name: "u64", min: 0, max: u64::MAX as i128, unsigned: true },
    Target { name: "i32", min: i32::MIN as i128, max: i32::MAX as i128, unsigned: false },
    Target { name: "i64", min: i64::MIN as i128, max: i64::MAX as i128, unsigned: false },
];

fn judge(what: &str, t: &Target, c: &[u8], r: &Result<i128, BerError>) -> Result<(), String> {
    if c.is_empty() {
        // not an integer: an error, or the value of no digits
        return match r {
            Ok(x) if *x != 0 => Err(format!("{} as {}: {} read from no octets", what, t.name, x)),
            _ => Ok(()),
        };
    }
    let v = value(c);
    let fits = matches!(v, Some(v) if v >= t.min && v <= t.max);
    let min = minimal(c).len() == c.len();
    let negative = c[0] & 0x80 != 0;
    let bad = |m: &str| Err(format!("{} as {}: {:?}, {} (value {:?})", what, t.name, r, m, v));
    match r {
        Ok(x) => {
            if !fits || Some(*x) != v {
                return bad("not the encoded value");
            }
        }
        Err(e) => {
            if fits && min {
                return bad("refused although it fits");
            }
            if min {
                let want = if t.unsigned && negative { BerError::IntegerNegative } else { BerError::IntegerTooLarge };
                if *e != want {
                    return bad(&format!("expected {:?}", want));
                }
            }
        }
    }
    Ok(())
}

fn flat<T: Into<i128>>(r: R<'_, T>, rest: usize) -> Result<Result<i128, BerError>, String> {
    match r {
        Ok((rem, v)) => {
            if rem.len() != rest {
                return Err(format!("direct parser left {} octets, expected {}", rem.len(), rest));
            }
            Ok(Ok(v.into()))
        }
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Ok(Err(e)),
        Err(nom::Err::Incomplete(_)) => Err("direct parser calls a complete element incomplete".into()),
    }
}

fn reads(o: &BerObject) -> [Result<i128, BerError>; 4] {
    [
        o.as_u32().map(|v| v as i128),
        o.as_u64().map(|v| v as i128),
        o.as_i32().map(|v| v as i128),
        o.as_i64().map(|v| v as i128),
    ]
}
fn reads_c(o: &BerObjectContent) -> [Result<i128, BerError>; 4] {
    [
        o.as_u32().map(|v| v as i128),
        o.as_u64().map(|v| v as i128),
        o.as_i32().map(|v| v as i128),
        o.as_i64().map(|v| v as i128),
    ]
}

fn c09_case(w: &mut Worker, c: &[u8]) -> Result<(), String> {
    let objs = [
        ("object from slice", BerObject::from_int_slice(c)),
        ("object from content", BerObject::from_obj(BerObjectContent::Integer(c))),
        (
            "object with another header",
            BerObject::from_header_and_content(
                Header::new(Class::ContextSpecific, false, Tag(3), Length::Definite(c.len())),
                BerObjectContent::Integer(c),
            ),
        ),
    ];
    let check_obj = |what: &str, o: &BerObject| -> Result<(), String> {
        let r = reads(o);
        if r != reads_c(&o.content) {
            return Err(format!("{}: object and content readings differ", what));
        }
        for (t, r) in TARGETS.iter().zip(&r) {
            judge(what, t, c, r)?;
        }
        if !c.is_empty() {
            let b = o.as_bigint().map_err(|e| format!("{}: as_bigint: {:?}", what, e))?;
            if b.to_signed_bytes_be() != minimal(c) {
                return Err(format!("{}: as_bigint gives {}", what, b));
            }
            match o.as_biguint() {
                Ok(b) => {
                    let m = minimal(c);
                    let m = if m.len() > 1 && m[0] == 0 { &m[1..] } else { m };
                    if c[0] >= 0x80 || b.to_bytes_be() != m {
                        return Err(format!("{}: as_biguint gives {}", what, b));
                    }
                }
                Err(BerError::IntegerNegative) if c[0] >= 0x80 => (),
                Err(e) => return Err(format!("{}: as_biguint: {:?}", what, e)),
            }
        }
        Ok(())
    };
    for (what, o) in &objs {
        check_obj(what, o)?;
    }
    w.calls += 30;
    // through the parsers
    let mut el = tlv(0, false, 2, c);
    let n = el.len();
    let min = !c.is_empty() && minimal(c).len() == c.len();
    for tail in [0usize, 2] {
        el.truncate(n);
        el.extend_from_slice(&[0x55, 0xaa][..tail]);
        for (name, p, der) in [
            ("parse_ber", parse_ber as P, false),
            ("parse_ber_integer", parse_ber_integer as P, false),
            ("parse_der", parse_der as P, true),
            ("parse_der_integer", parse_der_integer as P, true),
        ] {
            match p(&el) {
                Ok((rem, o)) => {
                    rem_is(&el, rem, n)?;
                    check_obj(name, &o)?;
                    w.accepted += 1;
                }
                Err(e) => {
                    w.refused += 1;
                    if min || (!der && !c.is_empty()) {
                        return Err(format!("{} refuses an integer: {:?}", name, e));
                    }
                }
            }
        }
        let direct = [
            ("parse_ber", [flat(parse_ber_u32(&el), tail)?, flat(parse_ber_u64(&el), tail)?, flat(parse_ber_i32(&el), tail)?, flat(parse_ber_i64(&el), tail)?]),
            ("parse_der", [flat(parse_der_u32(&el), tail)?, flat(parse_der_u64(&el), tail)?, flat(parse_der_i32(&el), tail)?, flat(parse_der_i64(&el), tail)?]),
        ];
        for (name, r) in &direct {
            for (t, r) in TARGETS.iter().zip(r) {
                judge(name, t, c, r)?;
            }
        }
        w.calls += 50;
    }
    // a long-form length, and inside a SEQUENCE
    let lf = tlv_form(0, false, 2, c, 3);
    for (t, r) in TARGETS.iter().zip([flat(parse_ber_u32(&lf), 0)?, flat(parse_ber_u64(&lf), 0)?, flat(parse_ber_i32(&lf), 0)?, flat(parse_ber_i64(&lf), 0)?]) {
        judge("parse_ber (long-form length)", t, c, &r)?;
    }
    let seq = tlv(0, true, 16, &tlv(0, false, 2, c));
    if let Ok((_, o)) = parse_ber(&seq) {
        check_obj("child of a SEQUENCE", &o[0])?;
    }
    // implicit tagging
    let imp = tlv(2, false, 5, c);
    if let Ok((_, o)) = parse_ber_implicit(&imp, Tag(5), parse_ber_content(Tag::Integer)) {
        check_obj("implicit-tagged", &o)?;
    }
    w.compared += 1;
    Ok(())
}

/// Values of other types are never read as INTEGERs
fn c09_other(w: &mut Worker, el: &[u8]) -> Result<(), String> {
    for p in [parse_ber as P, parse_der as P] {
        let Ok((_, o)) = p(el) else { continue };
        let is_int = matches!(o.content, BerObjectContent::Integer(_));
        let unsigned = is_int || matches!(o.content, BerObjectContent::BitString(..) | BerObjectContent::Enum(_));
        let r = reads(&o);
        if !is_int && (r[2].is_ok() || r[3].is_ok() || o.as_bigint().is_ok() || o.as_biguint().is_ok()) {
            return Err("a signed or big integer was read from another type".into());
        }
        if !unsigned && (r[0].is_ok() || r[1].is_ok()) {
            return Err("an unsigned integer was read from another type".into());
        }
        if let BerObjectContent::Enum(v) = o.content {
            if r[1] != Ok(v as i128) || r[0] != (if v <= u32::MAX as u64 { Ok(v as i128) } else { Err(BerError::IntegerTooLarge) }) {
                return Err(format!("ENUMERATED {} read as {:?}", v, r));
            }
        }
        w.calls += 6;
    }
    let h = model::header(el);
    let direct = [
        parse_ber_u32(el).is_ok(), parse_ber_u64(el).is_ok(), parse_ber_i32(el).is_ok(), parse_ber_i64(el).is_ok(),
        parse_der_u32(el).is_ok(), parse_der_u64(el).is_ok(), parse_der_i32(el).is_ok(), parse_der_i64(el).is_ok(),
    ];
    if direct.iter().any(|x| *x) {
        match h {
            Ok(h) if h.tag == 2 => (),
            _ => return Err(format!("a direct integer parser accepted another tag: {:?}", direct)),
        }
    }
    w.calls += 8;
    w.compared += 1;
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    explore(ctx, &[int_contents(ctx.pick(3, 3), ctx.pick(24, 48))], c09_case);
    explore(ctx, &[int_long(ctx.pick(300, 1500))], c09_case);
    let enums = Space::new("enum-values", 64, |sh, e| {
        for d in [0u64.wrapping_sub(1), 0, 1] {
            let v = (1u64 << sh).wrapping_add(d);
            let o = BerObject::from_obj(BerObjectContent::Enum(v));
            let _ = o;
            e(&v.to_be_bytes());
        }
    });
    explore(ctx, &[enums], |w, i| {
        let v = u64::from_be_bytes(i.try_into().unwrap());
        let o = BerObject::from_obj(BerObjectContent::Enum(v));
        let want32 = if v <= u32::MAX as u64 { Ok(v as u32) } else { Err(BerError::IntegerTooLarge) };
        if o.as_u64() != Ok(v) || o.as_u32() != want32 || o.content.as_u32() != want32 || o.as_i64().is_ok() || o.as_i32().is_ok() {
            return Err(format!("ENUMERATED {} read as {:?} {:?}", v, o.as_u64(), o.as_u32()));
        }
        w.compared += 1;
        Ok(())
    });
    let mut els = one_of_each();
    els.extend(bad_elements());
    explore(ctx, &[Space::list("other-types", els.clone()), placed_w(els, "other-types", true)], c09_other);
    explore(ctx, &[bytes_full(3)], c09_other);
}

/// long contents: every length up to `max`, few patterns
fn int_long(max: usize) -> Space {
    Space::new("long-integers", max + 1, |n, e| {
        if n == 0 {
            return;
        }
        for lead in [0u8, 0xff] {
            for sig in [1usize, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17] {
                if sig > n {
                    continue;
                }
                for (a, b) in [(0x00u8, 0x01u8), (0x7f, 0xff), (0x80, 0x00), (0xff, 0x7f), (0x01, 0x80), (0xfe, 0xdc)] {
                    let mut c = vec![lead; n];
                    for (k, x) in c[n - sig..].iter_mut().enumerate() {
                        *x = if k == 0 { a } else { b };
                    }
                    if !e(&c) {
                        return;
                    }
                }
            }
        }
    })
}

// ------------------------------------------------------------------ C10
fn bit(data: &[u8], n: usize) -> bool {
    data.get(n / 8).map(|b| b >> (7 - n % 8) & 1 == 1).unwrap_or(false)
}

fn c10_read(unused: u8, data: &[u8], o: &BerObject, what: &str) -> Result<(), String> {
    let e = |m: String| Err(format!("{}: {}", what, m));
    match &o.content {
        BerObjectContent::BitString(u, b) if *u == unused && b.data == data && b.as_ref() == data => (),
        c => return e(format!("content {:?}", c)),
    }
    let r = o.as_bitstring_ref().map_err(|x| format!("as_bitstring_ref: {:?}", x))?;
    let v = o.as_bitstring().map_err(|x| format!("as_bitstring: {:?}", x))?;
    if r.data != data || v.data != data || o.as_slice() != Ok(data) {
        return e("accessors give other data".into());
    }
    let total = data.len() * 8;
    let bs = o.as_bitslice().map_err(|x| format!("as_bitslice: {:?}", x))?;
    let bs2 = r.as_bitslice().ok_or("BitStringObject::as_bitslice: None")?;
    if bs.len() != total || bs2.len() != total {
        return e(format!("bit slice of {} bits, expected {}", bs.len(), total));
    }
    for n in 0..total {
        let want = bit(data, n);
        if r.is_set(n) != want || v.is_set(n) != want || bs[n] != want || bs2[n] != want {
            return e(format!("bit {}: is_set {}, bit slice {}, expected {}", n, r.is_set(n), bs[n], want));
        }
    }
    for n in (total..total + 70).chain([usize::MAX, usize::MAX - 7, 1 << 32, 1 << 61, (1usize << 63) + 1]) {
        if n >= total && r.is_set(n) {
            return e(format!("bit {} beyond the data is reported set", n));
        }
    }
    let used = total as i64 - unused as i64;
    let (u64r, u32r) = (o.as_u64(), o.as_u32());
    if o.content.as_u64() != u64r || o.content.as_u32() != u32r {
        return e("object and content readings differ".into());
    }
    if used < 0 {
        if u64r.is_ok() || u32r.is_ok() {
            return e(format!("{:?} read from {} used bits", u64r, used));
        }
    } else if used > 64 {
        if u64r.is_ok() || u32r.is_ok() {
            return e(format!("{:?} read from {} used bits", u64r, used));
        }
    } else {
        let mut val = 0u64;
        for n in 0..used as usize {
            val = val << 1 | bit(data, n) as u64;
        }
        if u64r != Ok(val) {
            return e(format!("as_u64 {:?}, expected {}", u64r, val));
        }
        match u32r {
            Ok(x) if x as u64 == val => (),
            Err(_) if val > u32::MAX as u64 => (),
            // more than 32 bits that happen to have a small value: may be refused
            Err(_) if used > 32 => (),
            _ => return e(format!("as_u32 {:?}, expected {}", u32r, val)),
        }
    }
    Ok(())
}

fn c10_case(w: &mut Worker, c: &[u8]) -> Result<(), String> {
    // c = unused, data
    let (unused, data) = (c[0], &c[1..]);
    let o = BerObject::from_obj(BerObjectContent::BitString(unused, BitStringObject { data }));
    c10_read(unused, data, &o, "constructed object")?;
    let el = tlv(0, false, 3, c);
    let seq = tlv(0, true, 16, &el);
    let imp = tlv(2, false, 1, c);
    let sane = unused < 8 && (unused as usize) <= data.len() * 8;
    for (name, p, der) in [
        ("parse_ber", parse_ber as P, false),
        ("parse_ber_bitstring", parse_ber_bitstring as P, false),
        ("parse_der", parse_der as P, true),
        ("parse_der_bitstring", parse_der_bitstring as P, true),
    ] {
        match p(&el) {
            Ok((_, o)) => {
                w.accepted += 1;
                c10_read(unused, data, &o, name)?
            }
            Err(e) => {
                w.refused += 1;
                let zero_pad = data.last().map(|l| l & !(0xffu32 << unused.min(8)) as u8 == 0).unwrap_or(true);
                if sane && (!der || zero_pad) {
                    return Err(format!("{} refuses a bit string: {:?}", name, e));
                }
            }
        }
    }
    if let Ok((_, o)) = parse_ber(&seq) {
        c10_read(unused, data, &o[0], "child of a SEQUENCE")?;
    }
    match parse_ber_implicit(&imp, Tag(1), parse_ber_content(Tag::BitString)) {
        Ok((_, o)) => c10_read(unused, data, &o, "implicit-tagged")?,
        Err(e) if sane => return Err(format!("implicit BIT STRING refused: {:?}", e)),
        _ => (),
    }
    w.calls += 6 * (20 + data.len() as u64 * 32);
    w.compared += 1;
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    let th = ctx.thorough();
    // all data of up to 2 octets, every unused count
    explore(
        ctx,
        &[Space::new("bits-0-1", 256, |sh, e| {
            e(&[sh as u8]);
            for a in 0..=255u8 {
                if !e(&[sh as u8, a]) {
                    return;
                }
            }
        })],
        c10_case,
    );
    explore(
        ctx,
        &[Space::new("bits-2", 256, move |sh, e| {
            for b in 0..=255u8 {
                for u in (0..=if th { 64 } else { 17u8 }).chain([255]) {
                    if !e(&[u, sh as u8, b]) {
                        return;
                    }
                }
            }
        })],
        c10_case,
    );
    // every length up to 40 octets, every unused count, patterns
    let max = ctx.pick(40usize, 80);
    explore(
        ctx,
        &[Space::new("bits-long", max + 1, move |n, e| {
            for u in 0..=255u8 {
                for pat in 0..ctx_pats(n) {
                    let mut c = vec![u];
                    c.extend_from_slice(&bit_pattern(n, pat));
                    if !e(&c) {
                        return;
                    }
                }
            }
        })],
        c10_case,
    );
    // a single bit set, at every position, around the word sizes
    explore(
        ctx,
        &[Space::new("bits-walking", 20, move |n, e| {
            for k in 0..n * 8 {
                for inv in [0u8, 0xff] {
                    for u in (0..=9u8).chain([16, 24, 31, 32, 33, 63, 64, 65, 72, 80, 130]) {
                        let mut c = vec![inv; n + 1];
                        c[0] = u;
                        c[1 + k / 8] ^= 0x80 >> (k % 8);
                        if !e(&c) {
                            return;
                        }
                    }
                }
            }
        })],
        c10_case,
    );
}
fn ctx_pats(n: usize) -> usize {
    if n == 0 {
        1
    } else {
        8
    }
}
fn bit_pattern(n: usize, p: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match p {
            0 => 0,
            1 => 0xff,
            2 => 0xaa,
            3 => (i * 37 + 11) as u8,
            4 => {
                if i == 0 {
                    0x80
                } else {
                    0
                }
            }
            5 => {
                if i + 1 == n {
                    0xff
                } else {
                    0
                }
            }
            6 => (i as u8) ^ 0x5a,
            _ => {
                if i < 4 {
                    0
                } else {
                    0xff
                }
            }
        })
        .collect()
}

// ------------------------------------------------------------------ C14
fn typed(tag: u32) -> (P, P) {
    TYPED.iter().find(|t| t.0 == tag).map(|t| (t.2, t.3)).unwrap()
}

/// `el`: one element with a short or long form length and universal class
fn c14_case(w: &mut Worker, el: &[u8]) -> Result<(), String> {
    let h = model::header(el).map_err(|_| "space error")?;
    let tag = h.tag;
    let (mb, md) = (model::ber(el), model::der(el));
    let (tb, td) = typed(tag);
    agree(el, "parse_ber", &parse_ber(el), &mb)?;
    agree(el, "parse_der", &parse_der(el), &md)?;
    agree(el, "type-specific BER parser", &tb(el), &mb)?;
    agree(el, "type-specific DER parser", &td(el), &md)?;
    w.calls += 4;
    w.compared += 4;
    match &mb {
        Ok(_) => w.accepted += 1,
        _ => w.refused += 1,
    }
    // what was read is the text, through every accessor
    if let Ok((_, o)) = parse_ber(el) {
        let c = &el[h.hlen..];
        match tag {
            23 | 24 => (),
            28 | 30 => {
                if o.as_slice() != Ok(c) {
                    return Err("as_slice is not the content".into());
                }
            }
            _ => {
                if o.as_slice() != Ok(c) || o.as_str().map(|s| s.as_bytes()) != Ok(c) || o.content.as_str().map(|s| s.as_bytes()) != Ok(c) {
                    return Err("as_str or as_slice is not the content".into());
                }
            }
        }
    }
    Ok(())
}
/// the same, also nested and implicitly tagged
fn c14_deep(w: &mut Worker, el: &[u8]) -> Result<(), String> {
    c14_case(w, el)?;
    let h = model::header(el).map_err(|_| "space error")?;
    let c = &el[h.hlen..];
    for f in [0usize, 10] {
        for t in [16u32, 17] {
            let mut body = vec![5, 0];
            body.extend_from_slice(el);
            let s = tlv_form(0, true, t, &body, f);
            agree(&s, "parse_ber (nested)", &parse_ber(&s), &model::ber(&s))?;
            agree(&s, "parse_der (nested)", &parse_der(&s), &model::der(&s))?;
        }
    }
    let imp = tlv(2, h.cons, 7, c);
    for der in [false, true] {
        let r = if der {
            parse_der_implicit(&imp, Tag(7), parse_der_content(Tag(h.tag)))
        } else {
            parse_ber_implicit(&imp, Tag(7), parse_ber_content(Tag(h.tag)))
        };
        let hl = imp.len() - c.len();
        let m = model::decode_content(&imp, hl, imp.len(), 0, h.cons, h.tag, model::Len::Def(c.len() as u64), der, 50);
        match (r, m) {
            (_, Err(model::No::Unspec)) => (),
            (Ok((_, o)), Ok((v, l))) => {
                let n = model::Node {
                    h: model::header(&imp).unwrap(),
                    start: 0,
                    cs: hl,
                    ce: imp.len(),
                    end: imp.len(),
                    val: v,
                    lenient: l,
                };
                cmp_content(&imp, &o.content, &n, h.tag, None).map_err(|e| format!("implicit-tagged: {}", e))?;
            }
            (Ok((_, o)), Err(_)) => return Err(format!("implicit-tagged content accepted: {:?}", o.content)),
            (Err(e), Ok((_, false))) => return Err(format!("implicit-tagged content refused: {:?}", e)),
            _ => (),
        }
    }
    w.calls += 10;
    w.compared += 10;
    Ok(())
}

const STR_TAGS: [u32; 12] = [7, 12, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30];

pub fn c14(ctx: &Ctx) {
    let th = ctx.thorough();
    // every octet, every pair of octets, under every string type and both flags
    explore(
        ctx,
        &[Space::new("string-1", 12, |sh, e| {
            for cons in [false, true] {
                e(&tlv(0, cons, STR_TAGS[sh], &[]));
                for a in 0..=255u8 {
                    if !e(&tlv(0, cons, STR_TAGS[sh], &[a])) {
                        return;
                    }
                }
            }
        })],
        c14_deep,
    );
    explore(
        ctx,
        &[Space::new("string-2", 12 * 256, |sh, e| {
            for a in 0..=255u8 {
                if !e(&tlv(0, false, STR_TAGS[sh / 256], &[(sh % 256) as u8, a])) {
                    return;
                }
            }
        })],
        c14_deep,
    );
    // every octet at every position of a valid string of every length
    let max = ctx.pick(40usize, 140);
    explore(
        ctx,
        &[Space::new("string-substitution", 12 * (max + 1), move |sh, e| {
            let (tag, n) = (STR_TAGS[sh % 12], sh / 12);
            let Some(c) = good_content(tag, n) else { return };
            for p in 0..n {
                let mut d = c.clone();
                for x in 0..=255u8 {
                    d[p] = x;
                    if !e(&tlv(0, false, tag, &d)) {
                        return;
                    }
                }
            }
        })],
        c14_case,
    );
    // long strings with a wrong octet, or a character of several octets, at each place that could
    // be a block boundary
    explore(ctx, &[crate::p_parse::string_long(), crate::p_parse::string_wide()], c14_case);
    // UTF-8: all 3-octet contents; all 4-octet contents over the boundary octets
    explore(
        ctx,
        &[Space::new("utf8-3", 65536, move |sh, e| {
            // (2-octet prefixes that are themselves invalid or complete behave alike after that:
            // in the quick tier the third octet is boundary values there)
            let p = [(sh >> 8) as u8, sh as u8];
            for x in 0..=255u8 {
                if !th && p[0] < 0x80 && p[1] < 0x80 && !U8.contains(&x) {
                    continue;
                }
                if !e(&tlv(0, false, 12, &[p[0], p[1], x])) {
                    return;
                }
            }
        })],
        c14_case,
    );
    explore(
        ctx,
        &[Space::new("utf8-4", U8.len() * U8.len(), |sh, e| {
            for &a in U8 {
                for &b in U8 {
                    if !e(&tlv(0, false, 12, &[U8[sh / U8.len()], U8[sh % U8.len()], a, b])) {
                        return;
                    }
                }
            }
        })],
        c14_case,
    );
    if th {
        explore(
            ctx,
            &[Space::new("utf8-4-supplementary", 6 * 256, |sh, e| {
                for x in 0..=65535u32 {
                    if !e(&tlv(0, false, 12, &[0xf0 + (sh / 256) as u8, sh as u8, (x >> 8) as u8, x as u8])) {
                        return;
                    }
                }
            })],
            c14_case,
        );
        explore(
            ctx,
            &[Space::new("utf8-5", U8.len() * U8.len(), |sh, e| {
                for &a in U8 {
                    for &b in U8 {
                        for &c in U8 {
                            if !e(&tlv(0, false, 12, &[U8[sh / U8.len()], U8[sh % U8.len()], a, b, c])) {
                                return;
                            }
                        }
                    }
                }
            })],
            c14_case,
        );
    }
    // UTF-16: every unit next to every boundary unit, in both orders
    explore(
        ctx,
        &[Space::new("utf16-2", 256, |sh, e| {
            const B: [u16; 12] = [0, 0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff, 0xd900, 0xde00];
            for lo in 0..=255u16 {
                let u = (sh as u16) << 8 | lo;
                for b in B {
                    for (x, y) in [(u, b), (b, u)] {
                        let c = [(x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8];
                        if !e(&tlv(0, false, 30, &c)) {
                            return;
                        }
                    }
                }
            }
        })],
        c14_case,
    );
    explore(
        ctx,
        &[Space::new("utf16-4", 7 * 7, |sh, e| {
            const B: [u16; 7] = [0x41, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000];
            for a in B {
                for b in B {
                    let c: Vec<u8> = [B[sh / 7], B[sh % 7], a, b].iter().flat_map(|x| x.to_be_bytes()).collect();
                    for n in 0..=8 {
                        if !e(&tlv(0, false, 30, &c[..n])) {
                            return;
                        }
                    }
                }
            }
        })],
        c14_case,
    );
    times(ctx);
}
const U8: &[u8] = &[
    0x00, 0x20, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
    0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff,
];

pub fn time_spaces() -> Vec<Space> {
    let mut sp: Vec<Space> = vec![];
    let bases: Vec<(u32, Vec<u8>)> = {
        let mut v = vec![];
        for t in [
            &b"2402290304Z"[..], b"240229030405Z", b"991231235959Z", b"000101000000Z", b"240229030405+0102", b"240229030405-1130",
            b"240229030405", b"2402290304", b"2402290304+0102", b"2402290304-0102", b"24022903Z", b"240229030405.5Z",
        ] {
            v.push((23, t.to_vec()));
            let mut g = b"20".to_vec();
            g.extend_from_slice(t);
            v.push((24, g));
        }
        for t in [
            &b"20240229030405.5Z"[..], b"20240229030405.05Z", b"20240229030405.005Z", b"20240229030405.123Z", b"20240229030405.999+0130",
            b"20240229030405.5-2359", b"20240229030405.1", b"20240229030405,5Z", b"20240229030405.Z", b"20240229030405.", b"00000101000000Z",
            b"99991231235959.999Z", b"20240229030405.+0100", b"20240229030405.1234Z", b"2024022903.5Z", b"202402290304.5Z",
        ] {
            v.push((24, t.to_vec()));
            v.push((23, t[2..].to_vec()));
        }
        v
    };
    // every octet at every position, every deletion, insertion of every octet, every truncation
    let b1 = bases.clone();
    sp.push(Space::new("time-edits", bases.len(), move |sh, e| {
            let (tag, t) = &b1[sh];
            e(&tlv(0, false, *tag, t));
            e(&tlv(0, true, *tag, t));
            for p in 0..=t.len() {
                e(&tlv(0, false, *tag, &t[..p]));
                for x in 0..=255u8 {
                    if p < t.len() {
                        let mut d = t.clone();
                        d[p] = x;
                        if !e(&tlv(0, false, *tag, &d)) {
                            return;
                        }
                    }
                    let mut d = t.clone();
                    d.insert(p, x);
                    if !e(&tlv(0, false, *tag, &d)) {
                        return;
                    }
                }
                if p < t.len() {
                    let mut d = t.clone();
                    d.remove(p);
                    e(&tlv(0, false, *tag, &d));
                }
            }
        }));
    // every two-digit value of every pair of adjacent fields, with every ending
    sp.push(Space::new("time-fields", 2 * 7 * 100, move |sh, e| {
            let tag = 23 + (sh / 700) as u32;
            let f = (sh / 100) % 7; // field pair f, f+1 (f = 6: only the century / zone)
            let v = sh % 100;
            for v2 in 0..100usize {
                for (k, end) in [&b"Z"[..], b"+0000", b"-1200", b"", b".25Z"].iter().enumerate() {
                    let mut fs = [24usize, 6, 15, 12, 30, 45];
                    let mut cent = 20;
                    let mut zone = None;
                    if f < 5 {
                        fs[f] = v;
                        fs[f + 1] = v2;
                    } else if f == 5 {
                        fs[5] = v;
                        cent = v2;
                    } else {
                        zone = Some((v, v2));
                    }
                    if tag == 23 && k == 4 {
                        continue;
                    }
                    let mut s = String::new();
                    if tag == 24 {
                        s += &format!("{:02}", cent);
                    }
                    for x in fs {
                        s += &format!("{:02}", x);
                    }
                    match zone {
                        Some((h, m)) => {
                            if k > 1 {
                                continue;
                            }
                            s += &format!("{}{:02}{:02}", if k == 0 { '+' } else { '-' }, h, m);
                        }
                        None => s += std::str::from_utf8(end).unwrap(),
                    }
                    if !e(&tlv(0, false, tag, s.as_bytes())) {
                        return;
                    }
                }
            }
        }));
    // boundary values of all fields together
    sp.push(Space::new("time-boundaries", 4 * 4 * 5, move |sh, e| {
            const MO: [u32; 4] = [0, 1, 12, 13];
            const DA: [u32; 4] = [0, 1, 31, 32];
            const HO: [u32; 5] = [0, 9, 23, 24, 99];
            for mi in [0, 9, 59, 60, 99] {
                for se in [0, 9, 59, 60, 61, 99] {
                    for y in [0, 1, 49, 50, 99, 1949, 1950, 2049, 9999] {
                        for end in ["Z", "+0100", "-0100", "", ".0Z", ".9", ".999-0500", "z", "ZZ", " Z"] {
                            for (tag, s) in [
                                (23, format!("{:02}{:02}{:02}{:02}{:02}{:02}{}", y % 100, MO[sh % 4], DA[sh / 4 % 4], HO[sh / 16], mi, se, end)),
                                (24, format!("{:04}{:02}{:02}{:02}{:02}{:02}{}", y, MO[sh % 4], DA[sh / 4 % 4], HO[sh / 16], mi, se, end)),
                                (23, format!("{:02}{:02}{:02}{:02}{:02}{}", y % 100, MO[sh % 4], DA[sh / 4 % 4], HO[sh / 16], mi, end)),
                                (24, format!("{:04}{:02}{:02}{:02}{:02}{}", y, MO[sh % 4], DA[sh / 4 % 4], HO[sh / 16], mi, end)),
                            ] {
                                if !e(&tlv(0, false, tag, s.as_bytes())) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }));
    // every fraction of 0..=3 digits, with each separator and ending
    sp.push(Space::new("time-fractions", 4, move |n, e| {
            for v in 0..10usize.pow(n as u32) {
                let d = if n == 0 { String::new() } else { format!("{:0w$}", v, w = n) };
                for sep in [".", ",", ""] {
                    for end in ["Z", "+0100", "-0930", ""] {
                        let s = format!("20240229030405{}{}{}", sep, d, end);
                        if !e(&tlv(0, false, 24, s.as_bytes())) || !e(&tlv(0, false, 23, &s.as_bytes()[2..])) {
                            return;
                        }
                    }
                }
            }
        }));
    // all strings of up to 4 characters over the time alphabet, and after a full date
    sp.push(Space::new("time-tails", 6 * 6, move |sh, e| {
            const A: &[u8] = b"09Z+-.";
            let heads: [(u32, &[u8]); 6] = [
                (23, b"2402290304"), (23, b"240229030405"), (24, b"202402290304"), (24, b"20240229030405"), (24, b"20240229030405.1"), (23, b""),
            ];
            let (tag, head) = heads[sh / 6];
            let first = A[sh % 6];
            for n in 0..=6u32 {
                for k in 0..6u32.pow(n.saturating_sub(1)) {
                    let mut c = head.to_vec();
                    if n > 0 {
                        c.push(first);
                        let mut k = k;
                        for _ in 1..n {
                            c.push(A[(k % 6) as usize]);
                            k /= 6;
                        }
                    }
                    if !e(&tlv(0, false, tag, &c)) {
                        return;
                    }
                }
            }
        }));
    sp
}

fn times(ctx: &Ctx) {
    for (k, s) in time_spaces().into_iter().enumerate() {
        if k == 0 {
            explore(ctx, &[s], c14_deep);
        } else {
            explore(ctx, &[s], c14_case);
        }
    }
}
