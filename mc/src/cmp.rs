//! Comparison of implementation objects with model nodes and with each other.
use crate::model::{self, Len, Node, Val};
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone};
use der_parser::ber::*;
use der_parser::error::BerError;
use der_parser::nom;

pub type R<'a, T = BerObject<'a>> = nom::IResult<&'a [u8], T, BerError>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ok,
    Inc,
    Err,
    Fail,
}
pub fn kind<T, E>(r: &Result<(&[u8], T), nom::Err<E>>) -> Kind {
    match r {
        Ok(_) => Kind::Ok,
        Err(nom::Err::Incomplete(_)) => Kind::Inc,
        Err(nom::Err::Error(_)) => Kind::Err,
        Err(nom::Err::Failure(_)) => Kind::Fail,
    }
}

/// Is `s` exactly `input[a..b]`, in place?
pub fn same_slice(input: &[u8], s: &[u8], a: usize, b: usize) -> Result<(), String> {
    if s.len() != b - a || s != &input[a..b] {
        return Err(format!(
            "content is {:02x?}, expected octets {}..{} = {:02x?}",
            &s[..s.len().min(40)],
            a,
            b,
            &input[a..b.min(a + 40)]
        ));
    }
    if !s.is_empty() && s.as_ptr() as usize != input.as_ptr() as usize + a {
        return Err("slice does not point into the input".to_string());
    }
    Ok(())
}

pub fn rem_is(input: &[u8], rem: &[u8], at: usize) -> Result<(), String> {
    if rem.len() + at != input.len() || rem.as_ptr() as usize != input.as_ptr() as usize + at {
        return Err(format!(
            "remainder has {} octets (at offset {}), expected {}",
            rem.len(),
            (rem.as_ptr() as usize).wrapping_sub(input.as_ptr() as usize) as isize,
            input.len() - at
        ));
    }
    Ok(())
}

pub fn class_u8(c: Class) -> u8 {
    match c {
        Class::Universal => 0,
        Class::Application => 1,
        Class::ContextSpecific => 2,
        Class::Private => 3,
    }
}

pub fn cmp_header(input: &[u8], h: &Header, n: &model::Hdr, start: usize) -> Result<(), String> {
    let len_ok = match (h.length(), n.len) {
        (Length::Definite(a), Len::Def(b)) => a as u64 == b,
        (Length::Indefinite, Len::Indef) => true,
        _ => false,
    };
    if class_u8(h.class()) != n.class || h.constructed() != n.cons || h.tag().0 != n.tag || !len_ok
    {
        return Err(format!("header {:?}, expected {:?}", h, n));
    }
    if let Some(t) = h.raw_tag() {
        if t != &input[start..start + n.taglen] {
            return Err(format!("raw tag {:02x?}", t));
        }
    }
    Ok(())
}

fn cmp_time(t: &ASN1DateTime, m: &model::Time) -> bool {
    let z = match t.tz {
        ASN1TimeZone::Undefined => None,
        ASN1TimeZone::Z => Some(None),
        ASN1TimeZone::Offset(h, m) => Some(Some((h, m))),
    };
    t.year == m.year
        && t.month == m.month
        && t.day == m.day
        && t.hour == m.hour
        && t.minute == m.minute
        && t.second == m.second
        && t.millisecond == m.ms
        && z == m.zone
}

/// The string stored in a string-typed content, with the tag number of its type
pub fn str_of<'a>(c: &BerObjectContent<'a>) -> Option<(u32, &'a str)> {
    use BerObjectContent::*;
    Some(match c {
        ObjectDescriptor(s) => (7, s),
        UTF8String(s) => (12, s),
        NumericString(s) => (18, s),
        PrintableString(s) => (19, s),
        T61String(s) => (20, s),
        VideotexString(s) => (21, s),
        IA5String(s) => (22, s),
        GraphicString(s) => (25, s),
        VisibleString(s) => (26, s),
        GeneralString(s) => (27, s),
        _ => return None,
    })
}

pub fn cmp_content(
    input: &[u8],
    c: &BerObjectContent,
    n: &Node,
    tag: u32,
    hdr: Option<&Header>,
) -> Result<(), String> {
    let (a, b) = (n.cs, n.ce);
    let wrong = || Err(format!("content {:.200?}, expected {:?}", c, n.val));
    match (c, &n.val) {
        (BerObjectContent::EndOfContent, Val::Eoc) => Ok(()),
        (BerObjectContent::Boolean(x), Val::Bool(y)) if x == y => Ok(()),
        (BerObjectContent::Integer(s), Val::Int) => same_slice(input, s, a, b),
        (BerObjectContent::BitString(u, s), Val::Bits(v)) if u == v => {
            same_slice(input, s.data, a + 1, b)
        }
        (BerObjectContent::OctetString(s), Val::Octets) => same_slice(input, s, a, b),
        (BerObjectContent::Null, Val::Null) => Ok(()),
        (BerObjectContent::Enum(x), Val::Enum(y)) if x == y => Ok(()),
        (BerObjectContent::OID(o), Val::Oid) => same_slice(input, o.as_bytes(), a, b),
        (BerObjectContent::RelativeOID(o), Val::RelOid) => same_slice(input, o.as_bytes(), a, b),
        (BerObjectContent::BmpString(s), Val::Bmp) => same_slice(input, s, a, b),
        (BerObjectContent::UniversalString(s), Val::Univ) => same_slice(input, s, a, b),
        (BerObjectContent::UTCTime(t), Val::Time(m)) if tag == 23 && cmp_time(t, m) => Ok(()),
        (BerObjectContent::GeneralizedTime(t), Val::Time(m)) if tag == 24 && cmp_time(t, m) => {
            Ok(())
        }
        (BerObjectContent::Sequence(v), Val::List(l)) if tag == 16 => cmp_list(input, v, l),
        (BerObjectContent::Set(v), Val::List(l)) if tag == 17 => cmp_list(input, v, l),
        (BerObjectContent::Unknown(any), Val::Unknown) => {
            same_slice(input, any.data, a, b)?;
            if let Some(h) = hdr {
                let k = &any.header;
                if k.class() != h.class()
                    || k.tag() != h.tag()
                    || k.constructed() != h.constructed()
                    || k.length() != h.length()
                {
                    return Err(format!("inner header {:?} differs from {:?}", k, h));
                }
            }
            Ok(())
        }
        (c, Val::Str) => match str_of(c) {
            Some((t, s)) if t == tag => same_slice(input, s.as_bytes(), a, b),
            _ => wrong(),
        },
        _ => wrong(),
    }
}

fn cmp_list(input: &[u8], v: &[BerObject], l: &[Node]) -> Result<(), String> {
    if v.len() != l.len() {
        return Err(format!("{} children, expected {}", v.len(), l.len()));
    }
    for (o, n) in v.iter().zip(l) {
        cmp_obj(input, o, n)?;
    }
    Ok(())
}

/// Full comparison of a parsed object with the model's node (headers, values, children,
/// and that every slice lies in the input at the right place)
pub fn cmp_obj(input: &[u8], o: &BerObject, n: &Node) -> Result<(), String> {
    cmp_header(input, &o.header, &n.h, n.start)
        .and_then(|_| cmp_content(input, &o.content, n, n.h.tag, Some(&o.header)))
        .map_err(|e| format!("element at offset {}: {}", n.start, e))
}

/// Generic verdict comparison: implementation result against model result.
pub fn agree(
    input: &[u8],
    who: &str,
    r: &R,
    m: &Result<Node, model::No>,
) -> Result<(), String> {
    match (r, m) {
        (_, Err(model::No::Unspec)) => Ok(()),
        (Ok((rem, o)), Ok(n)) => rem_is(input, rem, n.end)
            .and_then(|_| cmp_obj(input, o, n))
            .map_err(|e| format!("{}: {}", who, e)),
        (Ok((_, o)), Err(e)) => Err(format!(
            "{}: accepted as {:.300?} but the reference refuses it ({:?})",
            who, o, e
        )),
        (Err(e), Ok(n)) => {
            if matches!(e, nom::Err::Incomplete(_)) {
                Err(format!("{}: complete element called incomplete", who))
            } else if n.any_lenient() {
                Ok(())
            } else {
                Err(format!("{}: refused ({:?}) a valid element", who, e))
            }
        }
        (Err(_), Err(_)) => Ok(()),
    }
}

/// Deep equality including everything a header holds (the crate's own `==` on headers ignores
/// lengths); a header without raw tag octets equals one with them
pub fn deep_eq(a: &BerObject, b: &BerObject) -> bool {
    header_eq(&a.header, &b.header) && content_eq(&a.content, &b.content)
}
pub fn header_eq(a: &Header, b: &Header) -> bool {
    a.class() == b.class()
        && a.tag() == b.tag()
        && a.constructed() == b.constructed()
        && a.length() == b.length()
        && (a.raw_tag().is_none() || b.raw_tag().is_none() || a.raw_tag() == b.raw_tag())
}
pub fn content_eq(a: &BerObjectContent, b: &BerObjectContent) -> bool {
    use BerObjectContent::*;
    match (a, b) {
        (Sequence(x), Sequence(y)) | (Set(x), Set(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| deep_eq(p, q))
        }
        (Optional(Some(x)), Optional(Some(y))) => deep_eq(x, y),
        (Tagged(c, t, x), Tagged(d, u, y)) => c == d && t == u && deep_eq(x, y),
        // (the content of an indefinite-length element is delimited: its inner header may state
        // the length as known)
        (Unknown(x), Unknown(y)) => {
            let known = |h: &Header| match h.length() {
                Length::Indefinite => Length::Definite(x.data.len()),
                l => l,
            };
            x.data == y.data
                && known(&x.header) == known(&y.header)
                && header_eq(&x.header.clone().with_length(Length::Indefinite), &y.header.clone().with_length(Length::Indefinite))
        }
        (Sequence(_), _) | (Set(_), _) | (Optional(Some(_)), _) | (Tagged(..), _) | (Unknown(_), _) => false,
        _ => a == b,
    }
}
/// Equality of the decoded information only: class, tag, constructed flag and value, but not the
/// length form or the raw tag octets
pub fn value_eq(a: &BerObject, b: &BerObject) -> bool {
    a.header.class() == b.header.class()
        && a.header.tag() == b.header.tag()
        && a.header.constructed() == b.header.constructed()
        && value_content_eq(&a.content, &b.content)
}
pub fn value_content_eq(a: &BerObjectContent, b: &BerObjectContent) -> bool {
    use BerObjectContent::*;
    match (a, b) {
        (Sequence(x), Sequence(y)) | (Set(x), Set(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| value_eq(p, q))
        }
        (Optional(Some(x)), Optional(Some(y))) => value_eq(x, y),
        (Tagged(c, t, x), Tagged(d, u, y)) => c == d && t == u && value_eq(x, y),
        (Unknown(x), Unknown(y)) => {
            x.header.class() == y.header.class()
                && x.header.tag() == y.header.tag()
                && x.header.constructed() == y.header.constructed()
                && x.data == y.data
        }
        (Sequence(_), _) | (Set(_), _) | (Optional(Some(_)), _) | (Tagged(..), _) | (Unknown(_), _) => false,
        _ => a == b,
    }
}
