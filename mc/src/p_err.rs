//! C23: what a refusal says.
use crate::cmp::*;
use crate::entry::{self, TYPED};
use crate::model::{self, Len};
use crate::runner::*;
use crate::spaces::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use der_parser::nom;

/// What the model has to say about an element
#[derive(Clone, PartialEq, Debug)]
pub enum Cause {
    /// nothing is wrong
    Fine,
    /// refused, and this is how the error reads (up to the length of the text)
    Why(&'static str),
    /// no statement
    Open,
}
use Cause::*;

/// The first thing wrong with the element, in the order of its octets
pub fn cause(b: &[u8], der: bool, room: usize) -> Cause {
    if room == 0 {
        return match model::header(b) {
            Ok(h) if h.len != Len::Indef => Why("BerMaxDepth"),
            _ => Open,
        };
    }
    let h = match model::header(b) {
        Ok(h) => h,
        Err(_) => return Open,
    };
    if der && h.len == Len::Indef {
        return Why("DerConstraintFailed(IndefiniteLength)");
    }
    let (cs, ce) = match model::frame(b) {
        Ok((_, cs, ce, _)) => (cs, ce),
        Err(_) => return Open,
    };
    if h.class != 0 {
        return Fine;
    }
    let c = &b[cs..ce];
    let built = if der { "DerConstraintFailed(Constructed)" } else { "Unsupported" };
    match h.tag {
        1 => match c {
            _ if h.len == Len::Indef => Open,
            [0] | [0xff] => Fine,
            [_] if !der => Fine,
            [_] => Why("DerConstraintFailed(InvalidBoolean)"),
            _ => Why("InvalidLength"),
        },
        2 if der => match c {
            [] => Why("DerConstraintFailed(IntegerEmpty)"),
            [0, x, ..] if *x < 0x80 => Why("DerConstraintFailed(IntegerLeadingZeroes)"),
            [0xff, x, ..] if *x >= 0x80 => Why("DerConstraintFailed(IntegerLeadingFF)"),
            _ => Fine,
        },
        3 => match c {
            [] if h.cons => Open,
            _ if h.cons => Why(built),
            [] => Open,
            [u, ..] if der && *u > 7 => Why("InvalidValue { tag: Tag(3)"),
            [u, .., l] if der && l & ((1u16 << u) - 1) as u8 != 0 => Why("DerConstraintFailed(UnusedBitsNotZero)"),
            _ => Fine,
        },
        4 if der && h.cons => Why(built),
        28 if h.cons => Why(built),
        7 | 12 | 18..=22 | 25..=27 if h.cons => Why(built),
        7 | 12 | 18..=22 | 25..=27 if !model::charset_ok(h.tag, c) => Why("StringInvalidCharset"),
        30 if h.cons => Why(built),
        30 if c.len() % 2 != 0 => Open,
        30 if !model::utf16_ok(c) => Why("StringInvalidCharset"),
        23 | 24 => {
            if der && c.last() != Some(&b'Z') {
                return Why("DerConstraintFailed(MissingTimeZone)");
            }
            match model::time(c, h.tag == 23) {
                Ok(_) => Fine,
                Err(model::No::Bad) if !c.iter().all(|b| (0x20..0x7f).contains(b)) => Open,
                Err(model::No::Bad) if h.tag == 23 => Why("InvalidValue { tag: Tag(23)"),
                Err(model::No::Bad) => Why("InvalidValue { tag: Tag(24)"),
                Err(_) => Open,
            }
        }
        10 => Open,
        16 | 17 if !h.cons => Why("ConstructExpected"),
        16 | 17 => {
            let mut p = 0;
            while p < c.len() {
                let whole = model::frame(&c[p..]).is_ok();
                match cause(&c[p..], der, room - 1) {
                    // (whether the header or the depth is looked at first is left open)
                    Why("BerMaxDepth") if !whole => return Open,
                    Fine => (),
                    // an unfinished or too deep search for an end comes first
                    x if !der && has_indef(&c[p..]) && x != Why("BerMaxDepth") => return if all_frames(c) { x } else { Open },
                    Why("BerMaxDepth") if !der && has_indef(b) => return Open,
                    x => return x,
                }
                match model::frame(&c[p..]) {
                    Ok((_, _, _, e)) => p += e,
                    Err(_) => return Open,
                }
            }
            Fine
        }
        _ => Fine,
    }
}
fn has_indef(b: &[u8]) -> bool {
    b.contains(&0x80)
}
/// every element of the list, and in them, is complete
fn all_frames(mut c: &[u8]) -> bool {
    while !c.is_empty() {
        match model::frame(c) {
            Ok((h, cs, ce, e)) => {
                if h.cons && !all_frames(&c[cs..ce]) {
                    return false;
                }
                c = &c[e..];
            }
            Err(_) => return false,
        }
    }
    true
}

fn is_error<T>(who: &str, want: &str, r: Result<T, nom::Err<BerError>>) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{} accepts what it has to refuse as {}", who, want)),
        Err(nom::Err::Error(e)) => {
            let s = format!("{:?}", e);
            if s.starts_with(want) {
                Ok(())
            } else {
                Err(format!("{} says {} where the cause is {}", who, s, want))
            }
        }
        Err(nom::Err::Failure(e)) => Err(format!("{}: fatal error {:?} where the cause is {}", who, e, want)),
        Err(nom::Err::Incomplete(n)) => Err(format!("{}: incomplete ({:?}) where the cause is {}", who, n, want)),
    }
}

fn c23_case(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    let h = match model::header(i) {
        Ok(h) => h,
        Err(_) => {
            w.skipped += 1;
            return Ok(());
        }
    };
    let framed = model::frame(i);
    let mut said = false;
    for der in [false, true] {
        if framed.is_err() && !(der && h.len == Len::Indef) {
            continue;
        }
        for lim in [50usize, 1, 2, 3] {
            let why = match cause(i, der, lim) {
                Why(x) => x,
                _ => continue,
            };
            if !der && has_indef(i) && lim < 50 {
                continue;
            }
            said = true;
            if lim != 50 {
                w.calls += 1;
                if der {
                    is_error("parse_der_recursive", why, parse_der_recursive(i, lim))?;
                } else {
                    is_error("parse_ber_recursive", why, parse_ber_recursive(i, lim))?;
                }
                continue;
            }
            for (n, p, d) in entry::GENERIC {
                if *d == der {
                    w.calls += 1;
                    is_error(n, why, p(i))?;
                }
            }
            let t = Tag(h.tag);
            if h.class == 0 {
                w.calls += 2;
                if der {
                    is_error("parse_der_with_tag", why, parse_der_with_tag(i, t))?;
                } else {
                    is_error("parse_ber_with_tag", why, parse_ber_with_tag(i, t))?;
                    is_error("parse_ber_any_with_tag_r", why, parse_ber_any_with_tag_r(i, t, 50))?;
                }
                for (n, name, pb, pd) in TYPED {
                    if *n == h.tag {
                        is_error(name, why, if der { pd(i) } else { pb(i) })?;
                    }
                }
            }
        }
        // another tag than the expected one
        if framed.is_err() {
            continue;
        }
        said = true;
        let indef = der && h.len == Len::Indef;
        for x in [h.tag ^ 1, h.tag ^ 0x20, h.tag ^ 0x100, 16, 17, 2] {
            if x == h.tag {
                continue;
            }
            let want = if indef {
                "DerConstraintFailed(IndefiniteLength)".to_string()
            } else {
                format!("UnexpectedTag {{ expected: Some(Tag({})), actual: Tag({}) }}", x, h.tag)
            };
            let want = want.as_str();
            let t = Tag(x);
            w.calls += 8;
            if der {
                is_error("parse_der_with_tag", want, parse_der_with_tag(i, t))?;
                is_error("parse_der_slice", want, parse_der_slice(i, t))?;
                is_error("parse_der_tagged_implicit", want, parse_der_tagged_implicit(t, parse_der_content(Tag(2)))(i))?;
                is_error("parse_der_tagged_implicit_g", want, parse_der_tagged_implicit_g(t, |c, _, _| Ok((c, ())))(i))?;
                if x == 16 {
                    is_error("parse_der_sequence_of", want, parse_der_sequence_of(parse_der)(i))?;
                    is_error("parse_der_sequence_of_v", want, parse_der_sequence_of_v(parse_der)(i))?;
                    is_error("parse_der_sequence_defined", want, parse_der_sequence_defined(|c| Ok((c, vec![])))(i))?;
                    is_error("parse_der_sequence_defined_g", want, parse_der_sequence_defined_g(|c, _| Ok((c, ())))(i))?;
                }
                if x == 17 {
                    is_error("parse_der_set_of", want, parse_der_set_of(parse_der)(i))?;
                    is_error("parse_der_set_of_v", want, parse_der_set_of_v(parse_der)(i))?;
                    is_error("parse_der_set_defined", want, parse_der_set_defined(|c| Ok((c, vec![])))(i))?;
                    is_error("parse_der_set_defined_g", want, parse_der_set_defined_g(|c, _| Ok((c, ())))(i))?;
                }
            } else {
                is_error("parse_ber_with_tag", want, parse_ber_with_tag(i, t))?;
                is_error("parse_ber_any_with_tag_r", want, parse_ber_any_with_tag_r(i, t, 50))?;
                is_error("parse_ber_slice", want, parse_ber_slice(i, t))?;
                is_error("parse_ber_tagged_implicit", want, parse_ber_tagged_implicit(t, parse_ber_content(Tag(2)))(i))?;
                is_error("parse_ber_tagged_implicit_g", want, parse_ber_tagged_implicit_g(t, |c, _, _| Ok((c, ())))(i))?;
                if x == 16 {
                    is_error("parse_ber_sequence_of", want, parse_ber_sequence_of(parse_ber)(i))?;
                    is_error("parse_ber_sequence_of_v", want, parse_ber_sequence_of_v(parse_ber)(i))?;
                    is_error("parse_ber_sequence_defined", want, parse_ber_sequence_defined(|c| Ok((c, vec![])))(i))?;
                    is_error("parse_ber_sequence_defined_g", want, parse_ber_sequence_defined_g(|c, _| Ok((c, ())))(i))?;
                }
                if x == 17 {
                    is_error("parse_ber_set_of", want, parse_ber_set_of(parse_ber)(i))?;
                    is_error("parse_ber_set_of_v", want, parse_ber_set_of_v(parse_ber)(i))?;
                    is_error("parse_ber_set_defined", want, parse_ber_set_defined(|c| Ok((c, vec![])))(i))?;
                    is_error("parse_ber_set_defined_g", want, parse_ber_set_defined_g(|c, _| Ok((c, ())))(i))?;
                }
            }
        }
        for (n, name, pb, pd) in TYPED {
            if *n != h.tag {
                w.calls += 1;
                let want = if indef {
                    "DerConstraintFailed(IndefiniteLength)".to_string()
                } else {
                    format!("UnexpectedTag {{ expected: Some(Tag({})), actual: Tag({}) }}", n, h.tag)
                };
                is_error(name, &want, if der { pd(i) } else { pb(i) })?;
            }
        }
        // explicit tags: class, then tag, then constructed
        for x in [h.tag, h.tag ^ 1] {
            let want = if indef {
                "DerConstraintFailed(IndefiniteLength)".to_string()
            } else if h.class == 0 {
                "UnexpectedClass { expected: None, actual: Universal }".to_string()
            } else if x != h.tag {
                format!("UnexpectedTag {{ expected: Some(Tag({})), actual: Tag({}) }}", x, h.tag)
            } else if !h.cons {
                "ConstructExpected".to_string()
            } else {
                let (_, cs, ce, _) = framed.unwrap();
                match cause(&i[cs..ce], der, 50) {
                    Why(y) => y.to_string(),
                    _ => continue,
                }
            };
            w.calls += 2;
            let t = Tag(x);
            if der {
                is_error("parse_der_tagged_explicit", &want, parse_der_tagged_explicit(t, parse_der)(i))?;
                is_error("parse_der_tagged_explicit_g", &want, parse_der_tagged_explicit_g(t, |c, _| parse_der(c))(i))?;
            } else {
                is_error("parse_ber_tagged_explicit", &want, parse_ber_tagged_explicit(t, parse_ber)(i))?;
                is_error("parse_ber_tagged_explicit_g", &want, parse_ber_tagged_explicit_g(t, |c, _| parse_ber(c))(i))?;
            }
        }
    }
    // what an accessor says about an object of another type
    if let Ok((_, o)) = parse_ber(i) {
        said = true;
        accessors(w, &o)?;
    }
    if said {
        w.compared += 1;
    } else {
        w.skipped += 1;
    }
    Ok(())
}

fn accessors(w: &mut Worker, o: &BerObject) -> Result<(), String> {
    use BerObjectContent::*;
    let c = &o.content;
    w.calls += 16;
    let te = |who: &str, own: bool, e: Option<BerError>| match e {
        Some(BerError::BerTypeError) if !own => Ok(()),
        _ if own => Ok(()),
        e => Err(format!("{} of another type says {:?}", who, e)),
    };
    te("as_bool", matches!(c, Boolean(_)), o.as_bool().err())?;
    let oid = matches!(c, OID(_) | RelativeOID(_));
    te("as_oid", oid, o.as_oid().err())?;
    te("as_oid_val", oid, o.as_oid_val().err())?;
    te("as_optional", matches!(c, Optional(_)), o.as_optional().err())?;
    te("as_tagged", matches!(c, Tagged(..)), o.as_tagged().err())?;
    let bits = matches!(c, BitString(..));
    te("as_bitstring", bits, o.as_bitstring().err())?;
    te("as_bitstring_ref", bits, o.as_bitstring_ref().err())?;
    te("as_sequence", matches!(c, Sequence(_)), o.as_sequence().err())?;
    te("as_set", matches!(c, Set(_)), o.as_set().err())?;
    te("as_str", str_of(c).is_some(), o.as_str().err())?;
    let slice = str_of(c).is_some() || matches!(c, Integer(_) | OctetString(_) | BmpString(_) | UniversalString(_) | BitString(..) | Unknown(_));
    te("as_slice", slice, o.as_slice().err())?;
    te("as_bitslice", slice, o.as_bitslice().err().map(|e| e))?;
    let num = matches!(c, Integer(_) | BitString(..) | Enum(_));
    te("as_u64", num, o.as_u64().err())?;
    te("as_u32", num, o.as_u32().err())?;
    // assertions about the header
    let h = &o.header;
    let says = |who: &str, want: String, r: Result<(), BerError>| match r {
        Err(e) if format!("{:?}", e) == want => Ok(()),
        r => Err(format!("{} says {:?}, not {}", who, r, want)),
    };
    let t = h.tag().0;
    for x in [t ^ 1, t ^ 0x40] {
        says("assert_tag", format!("UnexpectedTag {{ expected: Some(Tag({})), actual: Tag({}) }}", x, t), o.assert_tag(Tag(x)))?;
    }
    for k in [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private] {
        if k != h.class() {
            says("assert_class", format!("UnexpectedClass {{ expected: Some({:?}), actual: {:?} }}", k, h.class()), o.assert_class(k))?;
        }
    }
    if h.constructed() {
        says("assert_primitive", "ConstructUnexpected".into(), o.assert_primitive())?;
    } else {
        says("assert_constructed", "ConstructExpected".into(), o.assert_constructed())?;
    }
    if let Sequence(v) | Set(v) = c {
        for x in v {
            accessors(w, x)?;
        }
    }
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    let mut sp = standard(ctx, 2);
    sp.push(crate::p_parse::string_positions(false));
    sp.push(crate::p_parse::string_wide());
    sp.extend(crate::p_parse::der_faults());
    sp.extend(crate::p_value::time_spaces());
    explore(ctx, &sp, c23_case);
}
