//! Tables of the public entry points.
use crate::cmp::R;
use der_parser::ber::*;
use der_parser::der::*;

pub type P = for<'a> fn(&'a [u8]) -> R<'a>;

/// (tag number, name, BER parser, DER parser)
pub const TYPED: &[(u32, &str, P, P)] = &[
    (0, "endofcontent", parse_ber_endofcontent, parse_der_endofcontent),
    (1, "bool", parse_ber_bool, parse_der_bool),
    (2, "integer", parse_ber_integer, parse_der_integer),
    (3, "bitstring", parse_ber_bitstring, parse_der_bitstring),
    (4, "octetstring", parse_ber_octetstring, parse_der_octetstring),
    (5, "null", parse_ber_null, parse_der_null),
    (6, "oid", parse_ber_oid, parse_der_oid),
    (7, "objectdescriptor", parse_ber_objectdescriptor, parse_der_objectdescriptor),
    (10, "enum", parse_ber_enum, parse_der_enum),
    (12, "utf8string", parse_ber_utf8string, parse_der_utf8string),
    (13, "relative_oid", parse_ber_relative_oid, parse_der_relative_oid),
    (16, "sequence", parse_ber_sequence, parse_der_sequence),
    (17, "set", parse_ber_set, parse_der_set),
    (18, "numericstring", parse_ber_numericstring, parse_der_numericstring),
    (19, "printablestring", parse_ber_printablestring, parse_der_printablestring),
    (20, "t61string", parse_ber_t61string, parse_der_t61string),
    (21, "videotexstring", parse_ber_videotexstring, parse_der_videotexstring),
    (22, "ia5string", parse_ber_ia5string, parse_der_ia5string),
    (23, "utctime", parse_ber_utctime, parse_der_utctime),
    (24, "generalizedtime", parse_ber_generalizedtime, parse_der_generalizedtime),
    (25, "graphicstring", parse_ber_graphicstring, parse_der_graphicstring),
    (26, "visiblestring", parse_ber_visiblestring, parse_der_visiblestring),
    (27, "generalstring", parse_ber_generalstring, parse_der_generalstring),
    (28, "universalstring", parse_ber_universalstring, parse_der_universalstring),
    (30, "bmpstring", parse_ber_bmpstring, parse_der_bmpstring),
];

/// What an entry point yields
#[derive(Debug, Clone)]
pub enum Out<'a> {
    Obj(BerObject<'a>),
    Opt(BerObject<'a>),
    Int(i128),
    Slice(&'a [u8]),
    List(Vec<BerObject<'a>>),
    Hdr(Header<'a>),
    Any(der_parser::asn1_rs::Any<'a>),
}
impl Out<'_> {
    pub fn same(&self, o: &Out) -> bool {
        use crate::cmp::*;
        match (self, o) {
            (Out::Obj(a), Out::Obj(b)) | (Out::Opt(a), Out::Opt(b)) => deep_eq(a, b),
            (Out::Int(a), Out::Int(b)) => a == b,
            (Out::Slice(a), Out::Slice(b)) => a == b,
            (Out::List(a), Out::List(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| deep_eq(x, y))
            }
            (Out::Hdr(a), Out::Hdr(b)) => header_eq(a, b),
            (Out::Any(a), Out::Any(b)) => header_eq(&a.header, &b.header) && a.data == b.data,
            _ => false,
        }
    }
}
pub type RO<'a> = R<'a, Out<'a>>;

fn m<'a, T>(r: R<'a, T>, f: impl FnOnce(T) -> Out<'a>) -> RO<'a> {
    r.map(|(rem, v)| (rem, f(v)))
}

pub fn many<'a>(
    mut item: impl FnMut(&'a [u8]) -> R<'a>,
) -> impl FnMut(&'a [u8]) -> R<'a, Vec<BerObject<'a>>> {
    move |mut i: &'a [u8]| {
        let mut v = vec![];
        while !i.is_empty() {
            let (r, o) = item(i)?;
            v.push(o);
            i = r;
        }
        Ok((i, v))
    }
}

/// header, then content read as the header's tag
pub fn two_step_ber(i: &[u8]) -> R<'_> {
    let (r, h) = ber_read_element_header(i)?;
    let (r, c) = ber_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), MAX_RECURSION)?;
    Ok((r, BerObject::from_header_and_content(h, c)))
}
pub fn two_step_der(i: &[u8]) -> R<'_> {
    let (r, h) = der_read_element_header(i)?;
    der_read_element_content(r, h)
}
pub fn two_step_der_as(i: &[u8]) -> R<'_> {
    let (r, h) = der_read_element_header(i)?;
    let (r, c) = der_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), MAX_RECURSION)?;
    Ok((r, BerObject::from_header_and_content(h, c)))
}
pub fn content_ber(i: &[u8]) -> R<'_> {
    let (r, h) = ber_read_element_header(i)?;
    let (r, c) = parse_ber_content(h.tag())(r, &h, MAX_RECURSION)?;
    Ok((r, BerObject::from_header_and_content(h, c)))
}
pub fn content2_ber(i: &[u8]) -> R<'_> {
    let (r, h) = ber_read_element_header(i)?;
    let (r, c) = parse_ber_content2(h.tag())(r, h.clone(), MAX_RECURSION)?;
    Ok((r, BerObject::from_header_and_content(h, c)))
}
pub fn content_der(i: &[u8]) -> R<'_> {
    let (r, h) = der_read_element_header(i)?;
    let (r, c) = parse_der_content(h.tag())(r, &h, MAX_RECURSION)?;
    Ok((r, BerObject::from_header_and_content(h, c)))
}
pub fn content2_der(i: &[u8]) -> R<'_> {
    let (r, h) = der_read_element_header(i)?;
    let (r, c) = parse_der_content2(h.tag())(r, h.clone(), MAX_RECURSION)?;
    Ok((r, BerObject::from_header_and_content(h, c)))
}
/// undecoded element, then conversion
pub fn via_any(i: &[u8]) -> R<'_> {
    let (r, a) = parse_ber_any(i)?;
    let o = BerObject::try_from(a).map_err(der_parser::nom::Err::Error)?;
    Ok((r, o))
}
pub fn via_any_ref(i: &[u8]) -> R<'_> {
    let (r, a) = parse_ber_any(i)?;
    let o = BerObject::try_from(&a).map_err(der_parser::nom::Err::Error)?;
    Ok((r, o))
}

/// The entry points that yield an object for one element of any type, whatever its tag.
/// (name, function, DER?)
pub const GENERIC: &[(&str, P, bool)] = &[
    ("parse_ber", parse_ber, false),
    ("parse_der", parse_der, true),
    ("header+content_as (BER)", two_step_ber, false),
    ("header+content (DER)", two_step_der, true),
    ("header+content_as (DER)", two_step_der_as, true),
    ("parse_ber_content", content_ber, false),
    ("parse_ber_content2", content2_ber, false),
    ("parse_der_content", content_der, true),
    ("parse_der_content2", content2_der, true),
    ("TryFrom<Any>", via_any, false),
    ("TryFrom<&Any>", via_any_ref, false),
];

/// Call every public parsing entry point on `i`. `tags`: expected tag numbers to try;
/// `lims`: recursion limits.
pub fn all<'a>(
    i: &'a [u8],
    tags: &[u32],
    lims: &[usize],
    f: &mut dyn FnMut(&'static str, RO<'a>) -> Result<(), String>,
) -> Result<(), String> {
    for (n, p, _) in GENERIC {
        f(n, m(p(i), Out::Obj))?;
    }
    f("parse_ber_any", m(parse_ber_any(i), Out::Any))?;
    f("ber_read_element_header", m(ber_read_element_header(i), Out::Hdr))?;
    f("der_read_element_header", m(der_read_element_header(i), Out::Hdr))?;
    for &l in lims {
        f("parse_ber_recursive", m(parse_ber_recursive(i, l), Out::Obj))?;
        f("parse_der_recursive", m(parse_der_recursive(i, l), Out::Obj))?;
        f("parse_ber_any_r", m(parse_ber_any_r(i, l), Out::Obj))?;
    }
    f("parse_ber_i32", m(parse_ber_i32(i), |v| Out::Int(v as i128)))?;
    f("parse_ber_i64", m(parse_ber_i64(i), |v| Out::Int(v as i128)))?;
    f("parse_ber_u32", m(parse_ber_u32(i), |v| Out::Int(v as i128)))?;
    f("parse_ber_u64", m(parse_ber_u64(i), |v| Out::Int(v as i128)))?;
    f("parse_der_i32", m(parse_der_i32(i), |v| Out::Int(v as i128)))?;
    f("parse_der_i64", m(parse_der_i64(i), |v| Out::Int(v as i128)))?;
    f("parse_der_u32", m(parse_der_u32(i), |v| Out::Int(v as i128)))?;
    f("parse_der_u64", m(parse_der_u64(i), |v| Out::Int(v as i128)))?;
    f("parse_ber_container", m(parse_ber_container(|c, _h| Ok((&c[c.len()..], c)))(i), Out::Slice))?;
    f("parse_der_container", m(parse_der_container(|c, _h| Ok((&c[c.len()..], c)))(i), Out::Slice))?;
    f("parse_ber_sequence_of", m(parse_ber_sequence_of(parse_ber)(i), Out::Obj))?;
    f("parse_ber_set_of", m(parse_ber_set_of(parse_ber)(i), Out::Obj))?;
    f("parse_der_sequence_of", m(parse_der_sequence_of(parse_der)(i), Out::Obj))?;
    f("parse_der_set_of", m(parse_der_set_of(parse_der)(i), Out::Obj))?;
    f("parse_ber_sequence_of_v", m(parse_ber_sequence_of_v(parse_ber)(i), Out::List))?;
    f("parse_ber_set_of_v", m(parse_ber_set_of_v(parse_ber)(i), Out::List))?;
    f("parse_der_sequence_of_v", m(parse_der_sequence_of_v(parse_der)(i), Out::List))?;
    f("parse_der_set_of_v", m(parse_der_set_of_v(parse_der)(i), Out::List))?;
    f("parse_ber_sequence_defined", m(parse_ber_sequence_defined(many(parse_ber))(i), Out::Obj))?;
    f("parse_ber_set_defined", m(parse_ber_set_defined(many(parse_ber))(i), Out::Obj))?;
    f("parse_der_sequence_defined", m(parse_der_sequence_defined(many(parse_der))(i), Out::Obj))?;
    f("parse_der_set_defined", m(parse_der_set_defined(many(parse_der))(i), Out::Obj))?;
    f(
        "parse_ber_sequence_defined_g",
        m(parse_ber_sequence_defined_g(|c, _h| many(parse_ber)(c))(i), Out::List),
    )?;
    f(
        "parse_ber_set_defined_g",
        m(parse_ber_set_defined_g(|c, _h| many(parse_ber)(c))(i), Out::List),
    )?;
    f(
        "parse_der_sequence_defined_g",
        m(parse_der_sequence_defined_g(|c, _h| many(parse_der)(c))(i), Out::List),
    )?;
    f(
        "parse_der_set_defined_g",
        m(parse_der_set_defined_g(|c, _h| many(parse_der)(c))(i), Out::List),
    )?;
    f("parse_ber_optional", m(parse_ber_optional(parse_ber)(i), Out::Opt))?;
    f("parse_ber_optional(der)", m(parse_ber_optional(parse_der)(i), Out::Opt))?;
    for &t in tags {
        let tag = Tag(t);
        f("parse_ber_with_tag", m(parse_ber_with_tag(i, tag), Out::Obj))?;
        f("parse_der_with_tag", m(parse_der_with_tag(i, tag), Out::Obj))?;
        f("parse_ber_any_with_tag_r", m(parse_ber_any_with_tag_r(i, tag, MAX_RECURSION), Out::Obj))?;
        f("parse_ber_slice", m(parse_ber_slice(i, tag), Out::Slice))?;
        f("parse_der_slice", m(parse_der_slice(i, tag), Out::Slice))?;
        f("parse_ber_tagged_explicit", m(parse_ber_tagged_explicit(tag, parse_ber)(i), Out::Obj))?;
        f("parse_der_tagged_explicit", m(parse_der_tagged_explicit(tag, parse_der)(i), Out::Obj))?;
        f(
            "parse_ber_tagged_explicit_g",
            m(parse_ber_tagged_explicit_g(tag, |c, _h| parse_ber(c))(i), Out::Obj),
        )?;
        f(
            "parse_der_tagged_explicit_g",
            m(parse_der_tagged_explicit_g(tag, |c, _h| parse_der(c))(i), Out::Obj),
        )?;
        f(
            "parse_ber_explicit_optional",
            m(parse_ber_explicit_optional(i, tag, parse_ber), Out::Opt),
        )?;
        f(
            "parse_der_explicit_optional",
            m(parse_der_explicit_optional(i, tag, parse_der), Out::Opt),
        )?;
        for inner in [Tag(2), Tag(4), Tag(16), Tag(12), tag] {
            f("parse_ber_implicit", m(parse_ber_implicit(i, tag, parse_ber_content(inner)), Out::Obj))?;
            f("parse_der_implicit", m(parse_der_implicit(i, tag, parse_der_content(inner)), Out::Obj))?;
            f(
                "parse_ber_tagged_implicit",
                m(parse_ber_tagged_implicit(tag, parse_ber_content(inner))(i), Out::Obj),
            )?;
            f(
                "parse_der_tagged_implicit",
                m(parse_der_tagged_implicit(tag, parse_der_content(inner))(i), Out::Obj),
            )?;
            f(
                "parse_ber_tagged_implicit_g",
                m(
                    parse_ber_tagged_implicit_g(tag, |c, h, d| {
                        let (r, o) = parse_ber_content2(inner)(c, h.clone(), d)?;
                        Ok((r, BerObject::from_header_and_content(h, o)))
                    })(i),
                    Out::Obj,
                ),
            )?;
            f(
                "parse_der_tagged_implicit_g",
                m(
                    parse_der_tagged_implicit_g(tag, |c, h, d| {
                        let (r, o) = parse_der_content2(inner)(c, h.clone(), d)?;
                        Ok((r, BerObject::from_header_and_content(h, o)))
                    })(i),
                    Out::Obj,
                ),
            )?;
        }
    }
    for (t, n, b, d) in TYPED {
        if tags.contains(t) {
            f(n, m(b(i), Out::Obj))?;
            f(n, m(d(i), Out::Obj))?;
        }
    }
    Ok(())
}

/// tag numbers worth expecting for this input: its own, two others
pub fn tags_for(i: &[u8]) -> [u32; 3] {
    let own = crate::model::header(i).map(|h| h.tag).unwrap_or_else(|_| i.first().map(|b| (b & 0x1f) as u32).unwrap_or(0));
    [own, if own == 2 { 4 } else { 2 }, if own == 16 { 17 } else { 16 }]
}
