//! C24: `==` on objects and copies of objects.
use crate::cmp::kind;
use crate::p_obj;
use crate::runner::*;
use crate::spaces::*;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::oid::Oid;

/// How two objects are compared here, without any `==` of the crate
#[derive(Clone, Copy, PartialEq)]
enum How {
    /// what `==` stands for: class, tag, constructed flag, value; raw tag octets when both are known
    Same,
    /// also the lengths and whether raw tag octets are known; text and octets at the same place
    Copy,
}
fn octets(a: &[u8], b: &[u8], how: How) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) && (how == How::Same || a.is_empty() || a.as_ptr() == b.as_ptr())
}
fn hdr(a: &Header, b: &Header, how: How) -> bool {
    let raw = match (a.raw_tag(), b.raw_tag()) {
        (Some(x), Some(y)) => octets(x, y, How::Same),
        (None, None) => true,
        _ => how == How::Same,
    };
    let len = match (a.length(), b.length()) {
        (Length::Definite(x), Length::Definite(y)) => x == y,
        (Length::Indefinite, Length::Indefinite) => true,
        _ => false,
    };
    a.class() as u8 == b.class() as u8 && a.tag().0 == b.tag().0 && a.constructed() == b.constructed() && raw && (len || how == How::Same)
}
fn oid(a: &Oid, b: &Oid) -> bool {
    // (an identifier may own its octets)
    octets(a.as_bytes(), b.as_bytes(), How::Same)
}
fn zone(z: &ASN1TimeZone) -> (u8, i8, i8) {
    match z {
        ASN1TimeZone::Undefined => (0, 0, 0),
        ASN1TimeZone::Z => (1, 0, 0),
        ASN1TimeZone::Offset(h, m) => (2, *h, *m),
    }
}
fn time(a: &ASN1DateTime, b: &ASN1DateTime) -> bool {
    (a.year, a.month, a.day, a.hour, a.minute, a.second) == (b.year, b.month, b.day, b.hour, b.minute, b.second)
        && a.millisecond == b.millisecond
        && zone(&a.tz) == zone(&b.tz)
}
fn list(a: &[BerObject], b: &[BerObject], how: How) -> bool {
    a.len() == b.len() && (0..a.len()).all(|k| object(&a[k], &b[k], how))
}
fn object(a: &BerObject, b: &BerObject, how: How) -> bool {
    hdr(&a.header, &b.header, how) && content(&a.content, &b.content, how)
}
fn content(a: &BerObjectContent, b: &BerObjectContent, how: How) -> bool {
    use BerObjectContent::*;
    let s = |x: &str, y: &str| octets(x.as_bytes(), y.as_bytes(), how);
    match (a, b) {
        (EndOfContent, EndOfContent) | (Null, Null) => true,
        (Boolean(x), Boolean(y)) => *x as u8 == *y as u8,
        (Integer(x), Integer(y)) | (OctetString(x), OctetString(y)) => octets(x, y, how),
        (BmpString(x), BmpString(y)) | (UniversalString(x), UniversalString(y)) => octets(x, y, how),
        (BitString(u, x), BitString(v, y)) => *u ^ *v == 0 && octets(x.data, y.data, how),
        (Enum(x), Enum(y)) => *x ^ *y == 0,
        (OID(x), OID(y)) | (RelativeOID(x), RelativeOID(y)) => oid(x, y),
        (NumericString(x), NumericString(y)) => s(x, y),
        (VisibleString(x), VisibleString(y)) => s(x, y),
        (PrintableString(x), PrintableString(y)) => s(x, y),
        (IA5String(x), IA5String(y)) => s(x, y),
        (UTF8String(x), UTF8String(y)) => s(x, y),
        (T61String(x), T61String(y)) => s(x, y),
        (VideotexString(x), VideotexString(y)) => s(x, y),
        (ObjectDescriptor(x), ObjectDescriptor(y)) => s(x, y),
        (GraphicString(x), GraphicString(y)) => s(x, y),
        (GeneralString(x), GeneralString(y)) => s(x, y),
        (UTCTime(x), UTCTime(y)) | (GeneralizedTime(x), GeneralizedTime(y)) => time(x, y),
        (Sequence(x), Sequence(y)) | (Set(x), Set(y)) => list(x, y, how),
        (Tagged(c, t, x), Tagged(d, u, y)) => *c as u8 == *d as u8 && t.0 == u.0 && object(x, y, how),
        (Optional(None), Optional(None)) => true,
        (Optional(Some(x)), Optional(Some(y))) => object(x, y, how),
        (Unknown(x), Unknown(y)) => hdr(&x.header, &y.header, how) && octets(x.data, y.data, how),
        _ => false,
    }
}

/// `==` and `!=` both ways, on the objects and on their contents
#[allow(clippy::nonminimal_bool)]
fn pair(what: &str, a: &BerObject, b: &BerObject) -> Result<(), String> {
    let want = object(a, b, How::Same);
    let c = content(&a.content, &b.content, How::Same);
    let got = [a == b, b == a, !(a != b), !(b != a)];
    if got != [want; 4] {
        return Err(format!("{}: == gives {:?}, the objects are {}: {:.300?} and {:.300?}", what, got, if want { "the same" } else { "different" }, a, b));
    }
    let got = [a.content == b.content, b.content == a.content, !(a.content != b.content), !(b.content != a.content)];
    if got != [c; 4] {
        return Err(format!("{}: == on contents gives {:?}, they are {}: {:.300?} and {:.300?}", what, got, if c { "the same" } else { "different" }, a.content, b.content));
    }
    if let (BerObjectContent::BitString(_, x), BerObjectContent::BitString(_, y)) = (&a.content, &b.content) {
        let same = octets(x.data, y.data, How::Same);
        if (x == y) != same || (y == x) != same || (x.clone() == *y) != same || (x.as_ref() == y.as_ref()) != same {
            return Err(format!("{}: == on bit strings is wrong for {:.300?} and {:.300?}", what, x, y));
        }
    }
    Ok(())
}
fn copies(o: &BerObject) -> Result<(), String> {
    let c = o.clone();
    if !object(&c, o, How::Copy) {
        return Err(format!("the clone of {:.300?} is {:.300?}", o, c));
    }
    if !content(&o.content.clone(), &o.content, How::Copy) {
        return Err(format!("the clone of the content of {:.300?} differs", o));
    }
    pair("clone", o, &c)?;
    pair("rebuilt", o, &BerObject::from_header_and_content(o.header.clone(), o.content.clone()))?;
    // one object overwritten with another
    let mut d = BerObject::from_seq(vec![BerObject::from_obj(BerObjectContent::Null)]);
    d.clone_from(o);
    if !object(&d, o, How::Copy) {
        return Err(format!("clone_from of {:.300?} is {:.300?}", o, d));
    }
    Ok(())
}

fn c24_case(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    let Ok((_, o)) = parse_ber(i) else {
        w.refused += 1;
        return Ok(());
    };
    w.accepted += 1;
    w.compared += 1;
    copies(&o)?;
    // the same octets elsewhere
    let other = i.to_vec();
    match parse_ber(&other) {
        Ok((_, p)) => pair("the same octets elsewhere", &o, &p)?,
        r => return Err(format!("parsed once only: {:?}", kind(&r))),
    }
    if let Ok((_, p)) = parse_der(&other) {
        pair("parsed as DER", &o, &p)?;
    }
    w.calls += 16;
    // inside wrappers
    if i.len() < 40 {
        use BerObjectContent::*;
        let (t, u) = (o.header.tag(), Tag(o.header.tag().0 ^ 1));
        let x = |c: BerObjectContent<'static>| BerObject::from_obj(c);
        let b = || Box::new(o.clone());
        let null = x(Null);
        let forms = [
            BerObject::from_obj(Tagged(Class::ContextSpecific, t, b())),
            BerObject::from_obj(Tagged(Class::Private, t, b())),
            BerObject::from_obj(Tagged(Class::ContextSpecific, u, b())),
            BerObject::from_obj(Optional(Some(b()))),
            BerObject::from_obj(Optional(None)),
            BerObject::from_seq(vec![o.clone()]),
            BerObject::from_set(vec![o.clone()]),
            BerObject::from_seq(vec![o.clone(), o.clone()]),
            BerObject::from_seq(vec![o.clone(), null.clone()]),
            BerObject::from_seq(vec![null.clone(), o.clone()]),
            BerObject::from_obj(o.content.clone()),
            BerObject::from_header_and_content(o.header.clone(), Null),
            BerObject::from_header_and_content(o.header.clone().with_length(Length::Indefinite), o.content.clone()),
            BerObject::from_header_and_content(o.header.clone().with_length(Length::Definite(77)), o.content.clone()),
            BerObject::from_header_and_content(o.header.clone().with_constructed(!o.header.constructed()), o.content.clone()),
            BerObject::from_header_and_content(o.header.clone().with_tag(u), o.content.clone()),
            BerObject::from_header_and_content(o.header.clone().with_class(Class::Application), o.content.clone()),
        ];
        for a in 0..forms.len() {
            pair("wrapped", &o, &forms[a])?;
            for b in a..forms.len() {
                pair("wrapped", &forms[a], &forms[b])?;
            }
        }
        w.calls += 1200;
    }
    // one octet different
    let n = i.len();
    let mut e = other;
    let near = if n > 4000 { 6 } else { 24 };
    for p in (0..n).filter(|p| *p < near || *p + near >= n || *p % (n / 8 + 1) == 0) {
        for m in [0x01u8, 0x20, 0x80, 0xff] {
            if n > 100 && m & 0x21 == 0x20 {
                continue;
            }
            e[p] ^= m;
            if let Ok((_, q)) = parse_ber(&e) {
                pair("one octet changed", &o, &q)?;
                w.calls += 8;
            }
            e[p] ^= m;
        }
    }
    Ok(())
}

/// every octet of contents of many lengths changed
fn positions() -> Space {
    const L: [usize; 22] = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1025];
    Space::new("content-lengths", 32 * L.len(), |sh, e| {
        if let Some(c) = good_content((sh / L.len()) as u32, L[sh % L.len()]) {
            e(&tlv(0, cons_of(0, (sh / L.len()) as u32), (sh / L.len()) as u32, &c));
        }
        if sh < L.len() {
            e(&tlv(1, false, 3, &vec![7; L[sh]]));
            e(&tlv(0, true, 16, &vec![5, 0].repeat(L[sh])));
            e(&tlv_indef(0, 17, &vec![2, 1, 3].repeat(L[sh])));
        }
    })
}
fn every_octet(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    let Ok((_, o)) = parse_ber(i) else { return Ok(()) };
    w.accepted += 1;
    w.compared += 1;
    copies(&o)?;
    let mut e = i.to_vec();
    for p in 0..i.len() {
        for m in [0x01u8, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80] {
            e[p] ^= m;
            if let Ok((_, q)) = parse_ber(&e) {
                w.calls += 8;
                pair("one bit changed", &o, &q)?;
            }
            e[p] ^= m;
        }
    }
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    explore(ctx, &standard(ctx, 2), c24_case);
    explore(ctx, &[positions()], every_octet);
    // objects as the constructors make them, each with each
    let objs = p_obj::built(2, &[0, 1, 2, 3, 4, 8]);
    let seeds: Vec<Vec<u8>> = one_of_each();
    let parsed: Vec<BerObject> = seeds.iter().filter_map(|s| parse_ber(s).ok().map(|x| x.1)).collect();
    let n = objs.len();
    ctx.par("pairs-of-constructed-objects", n, |k, w| {
        let id = (k as u32).to_be_bytes();
        w.case(&id, "", |w| {
            copies(&objs[k])?;
            for p in &objs[k..] {
                w.calls += 8;
                pair("constructed", &objs[k], p)?;
            }
            for p in &parsed {
                w.calls += 8;
                pair("constructed and parsed", &objs[k], p)?;
            }
            w.compared += 1;
            Ok(())
        });
    });
}
