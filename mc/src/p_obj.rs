//! C15 encoding, C16 visitors, C17 accessors and iteration, C18 pretty-printing.
use crate::cmp::*;
use crate::model::{self, Len, Node, Val};
use crate::p_parse::string_positions;
use crate::runner::*;
use crate::spaces::*;
use cookie_factory::gen_simple;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, Any};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use der_parser::oid::Oid;
use std::panic::{catch_unwind, AssertUnwindSafe};

type O = BerObject<'static>;
type C = BerObjectContent<'static>;

fn leak(v: &[u8]) -> &'static [u8] {
    Box::leak(v.to_vec().into_boxed_slice())
}
fn leak_str(v: String) -> &'static str {
    Box::leak(v.into_boxed_str())
}
fn pat(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + 7) as u8).collect()
}
pub const CLASSES: [Class; 4] = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private];

// ------------------------------------------------------------------ constructed objects
/// The content of the string type with that tag number
fn str_content(tag: u32, s: &'static str) -> C {
    use BerObjectContent::*;
    match tag {
        7 => ObjectDescriptor(s),
        12 => UTF8String(s),
        18 => NumericString(s),
        19 => PrintableString(s),
        20 => T61String(s),
        21 => VideotexString(s),
        22 => IA5String(s),
        25 => GraphicString(s),
        26 => VisibleString(s),
        27 => GeneralString(s),
        _ => unreachable!(),
    }
}
const STR_TAGS: [u32; 10] = [7, 12, 18, 19, 20, 21, 22, 25, 26, 27];

/// Contents of every type, several values each; `lens`: content lengths for the raw types
fn leaf_contents(lens: &[usize]) -> Vec<C> {
    use BerObjectContent::*;
    let mut v: Vec<C> = vec![EndOfContent, Boolean(true), Boolean(false), Null];
    for &n in lens {
        let p = leak(&pat(n));
        v.push(OctetString(p));
        v.push(Integer(p));
        for u in 0..8u8 {
            v.push(BitString(u, BitStringObject { data: p }));
        }
        v.push(UniversalString(leak(&good_content(28, n / 4 * 4).unwrap())));
        v.push(BmpString(leak(&good_content(30, n / 2 * 2).unwrap())));
        for t in STR_TAGS {
            let s = String::from_utf8(good_content(t, n).unwrap()).unwrap();
            v.push(str_content(t, leak_str(s)));
        }
        if let Some(c) = good_content(6, n) {
            v.push(OID(Oid::new(c.clone().into())));
            v.push(RelativeOID(Oid::new_relative(c.into())));
        }
        for t in [8u32, 9, 11, 14, 15, 29, 31, 127, 128, 16384, u32::MAX] {
            let h = Header::new(Class::Universal, false, Tag(t), Length::Definite(n));
            v.push(Unknown(Any::new(h, p)));
        }
    }
    for k in 0..=32 {
        for d in [-1i64, 0, 1] {
            let x = (1i64 << k) + d;
            if x >= 0 && x <= u32::MAX as i64 {
                v.push(Enum(x as u64));
            }
        }
    }
    for t in times() {
        v.push(GeneralizedTime(t.clone()));
        if t.year < 100 && t.millisecond.is_none() && t.tz != ASN1TimeZone::Undefined {
            v.push(UTCTime(t));
        }
    }
    v
}
fn times() -> Vec<ASN1DateTime> {
    let mut v = vec![];
    for y in [0u32, 1, 9, 10, 49, 50, 99, 100, 999, 1000, 1950, 1999, 2000, 2024, 9999] {
        for (mo, d, h, mi, s) in [(1, 1, 0, 0, 0), (12, 31, 23, 59, 59), (2, 29, 9, 5, 7), (10, 10, 10, 10, 10)] {
            for ms in [None, Some(0u16), Some(1), Some(9), Some(10), Some(99), Some(100), Some(500), Some(999)] {
                for tz in [
                    ASN1TimeZone::Z,
                    ASN1TimeZone::Undefined,
                    ASN1TimeZone::Offset(0, 0),
                    ASN1TimeZone::Offset(0, 30),
                    ASN1TimeZone::Offset(1, 0),
                    ASN1TimeZone::Offset(14, 45),
                    ASN1TimeZone::Offset(-1, 0),
                    ASN1TimeZone::Offset(-11, 30),
                    ASN1TimeZone::Offset(-5, 5),
                ] {
                    v.push(ASN1DateTime::new(y, mo, d, h, mi, s, ms, tz));
                }
            }
        }
    }
    v
}

/// Objects built with the constructors: every leaf content alone, then all trees of up to `n`
/// nodes over a few leaves, SEQUENCE, SET, present and absent optionals and tagged objects
pub fn built(n: usize, lens: &[usize]) -> Vec<O> {
    let mut v: Vec<O> = leaf_contents(lens).into_iter().map(BerObject::from_obj).collect();
    v.extend(built_trees(n));
    v
}
fn built_trees(n: usize) -> Vec<O> {
    use BerObjectContent::*;
    let small: Vec<C> = vec![
        Null,
        Boolean(true),
        Integer(&[5]),
        OctetString(&[0, 0]),
        UTF8String("é"),
        BitString(3, BitStringObject { data: &[0xa8] }),
        Enum(3),
        OID(Oid::new((&[0x2a, 3][..]).into())),
        BmpString(&[0, 0x41]),
        Optional(None),
        Unknown(Any::new(Header::new(Class::Universal, false, Tag(40), Length::Definite(1)), &[9])),
        UTCTime(ASN1DateTime::new(24, 1, 2, 3, 4, 5, None, ASN1TimeZone::Z)),
    ];
    let mut elems: Vec<Vec<O>> = vec![vec![]];
    let mut forests: Vec<Vec<Vec<O>>> = vec![vec![vec![]]];
    for k in 1..=n {
        let mut es: Vec<O> = vec![];
        if k == 1 {
            es.extend(small.iter().cloned().map(BerObject::from_obj));
            // an undecoded object of each other class, as a parser makes them
            for (c, b) in [(Class::Application, &[0x41u8, 1, 7][..]), (Class::ContextSpecific, &[0x81, 0]), (Class::Private, &[0xff, 0x64, 1, 1])] {
                let h = Header::new(c, false, Tag(if c == Class::Private { 100 } else { 1 }), Length::Definite(b.len() - if c == Class::Private { 3 } else { 2 }));
                es.push(BerObject::from_header_and_content(h.clone(), Unknown(Any::new(h, &b[if c == Class::Private { 3 } else { 2 }..]))));
            }
        }
        for f in &forests[k - 1] {
            es.push(BerObject::from_seq(f.clone()));
            es.push(BerObject::from_set(f.clone()));
        }
        for e in elems[k - 1].clone() {
            es.push(BerObject::from_obj(Optional(Some(Box::new(e.clone())))));
            for (c, t) in [(Class::ContextSpecific, 0u32), (Class::Application, 30), (Class::Private, 31), (Class::ContextSpecific, 200)] {
                es.push(BerObject::from_obj(Tagged(c, Tag(t), Box::new(e.clone()))));
            }
        }
        elems.push(es);
        let mut fs: Vec<Vec<O>> = vec![];
        if k < n {
            for j in 1..=k {
                for a in &elems[j] {
                    for b in &forests[k - j] {
                        let mut x = vec![a.clone()];
                        x.extend(b.iter().cloned());
                        fs.push(x);
                    }
                }
            }
        }
        forests.push(fs);
    }
    let mut v: Vec<O> = elems.into_iter().flatten().collect();
    // wide and deep ones
    for w in [10usize, 41, 42, 43, 84, 85, 86, 127, 128, 1000] {
        let kids: Vec<O> = (0..w).map(|i| BerObject::from_int_slice(leak(&[(i % 128) as u8]))).collect();
        v.push(BerObject::from_seq(kids.clone()));
        v.push(BerObject::from_set(kids));
    }
    let mut o: O = BerObject::from_obj(Null);
    for d in 1..50 {
        o = if d % 3 == 0 { BerObject::from_set(vec![o.clone(), BerObject::from_obj(Boolean(d % 2 == 0))]) } else { BerObject::from_seq(vec![o.clone()]) };
        v.push(o.clone());
    }
    v
}
fn brief(o: &BerObject) -> String {
    format!("{:.300?}", o.content)
}
/// Run `f` on every constructed object
fn explore_built<F>(ctx: &Ctx, name: &str, objs: &[O], f: F)
where
    F: Fn(&mut Worker, &O) -> Result<(), String> + Sync,
{
    const CHUNK: usize = 64;
    ctx.par(name, objs.len().div_ceil(CHUNK), |sh, w| {
        for k in sh * CHUNK..((sh + 1) * CHUNK).min(objs.len()) {
            let id = (k as u32).to_be_bytes();
            if !w.case(&id, "", |w| f(w, &objs[k]).map_err(|e| format!("object {}: {}", brief(&objs[k]), e))) {
                return;
            }
        }
    });
}

// ------------------------------------------------------------------ C15
fn time_text(y: u32, f: [u8; 5], ms: Option<u16>, zone: Option<Option<(i8, i8)>>, utc: bool) -> Vec<u8> {
    let mut s = if utc { format!("{:02}", y) } else { format!("{:04}", y) };
    for x in f {
        s += &format!("{:02}", x);
    }
    if let Some(m) = ms {
        s += &format!(".{:03}", m);
    }
    match zone {
        None => {}
        Some(None) => s.push('Z'),
        Some(Some((h, m))) => s += &format!("{}{:02}{:02}", if h < 0 { '-' } else { '+' }, h.abs(), m),
    }
    s.into_bytes()
}
fn zone(t: &ASN1DateTime) -> Option<Option<(i8, i8)>> {
    match t.tz {
        ASN1TimeZone::Undefined => None,
        ASN1TimeZone::Z => Some(None),
        ASN1TimeZone::Offset(h, m) => Some(Some((h, m))),
    }
}
fn time_bytes(t: &ASN1DateTime, utc: bool) -> Vec<u8> {
    time_text(t.year, [t.month, t.day, t.hour, t.minute, t.second], t.millisecond, zone(t), utc)
}

/// Reference encoding of content octets (own code)
fn enc_content(c: &BerObjectContent) -> Vec<u8> {
    use BerObjectContent::*;
    match c {
        EndOfContent | Null => vec![],
        Boolean(b) => vec![if *b { 0xff } else { 0 }],
        Integer(s) | OctetString(s) | BmpString(s) | UniversalString(s) => s.to_vec(),
        BitString(u, b) => {
            let mut v = vec![*u];
            v.extend_from_slice(b.data);
            v
        }
        Enum(x) => {
            // the INTEGER encoding of the same number
            let b = (*x as u128).to_be_bytes();
            let mut z = b.iter().take(15).take_while(|x| **x == 0).count();
            if b[z] >= 0x80 {
                z -= 1;
            }
            b[z..].to_vec()
        }
        OID(o) | RelativeOID(o) => o.as_bytes().to_vec(),
        UTCTime(t) => time_bytes(t, true),
        GeneralizedTime(t) => time_bytes(t, false),
        Sequence(v) | Set(v) => v.iter().flat_map(enc).collect(),
        Optional(None) => vec![],
        Optional(Some(o)) => enc_content(&o.content),
        Tagged(_, _, o) => enc(o),
        Unknown(a) => a.data.to_vec(),
        c => str_of(c).unwrap().1.as_bytes().to_vec(),
    }
}
/// Reference encoding (own code)
fn enc(o: &BerObject) -> Vec<u8> {
    match &o.content {
        BerObjectContent::Optional(None) => vec![],
        BerObjectContent::Optional(Some(x)) => enc(x),
        BerObjectContent::Tagged(c, t, x) => tlv(class_u8(*c), true, t.0, &enc(x)),
        c => tlv(class_u8(o.header.class()), o.header.constructed(), o.header.tag().0, &enc_content(c)),
    }
}
/// Has the object only one right encoding? (a time has more than one)
fn unique(c: &BerObjectContent) -> bool {
    use BerObjectContent::*;
    match c {
        UTCTime(_) | GeneralizedTime(_) => false,
        Sequence(v) | Set(v) => v.iter().all(|o| unique(&o.content)),
        Optional(Some(o)) | Tagged(_, _, o) => unique(&o.content),
        _ => true,
    }
}
/// one element, all lengths definite and shortest, all tags shortest, nothing after it
fn well_formed(out: &[u8]) -> Result<(), String> {
    fn walk(b: &[u8], n: &Node) -> Result<(), String> {
        if n.h.len == Len::Indef || !n.h.minlen {
            return Err(format!("length form at offset {} is not the shortest definite one", n.start));
        }
        let mut t = vec![];
        put_tag(&mut t, n.h.class, n.h.cons, n.h.tag);
        if b[n.start..n.start + n.h.taglen] != t[..] {
            return Err(format!("tag octets at offset {} are not the shortest", n.start));
        }
        if let Val::List(l) = &n.val {
            for k in l {
                walk(b, k)?;
            }
        }
        Ok(())
    }
    match model::ber(out) {
        Ok(n) => {
            if n.end != out.len() {
                return Err(format!("encoding has {} octets after the element: {}", out.len() - n.end, hex(out)));
            }
            walk(out, &n)
        }
        Err(e) => Err(format!("encoding {} is not an element ({:?})", hex(&out[..out.len().min(80)]), e)),
    }
}
/// is this decoded element in the form the encoder must reproduce?
fn canonical(b: &[u8], n: &Node) -> bool {
    let mut t = vec![];
    put_tag(&mut t, n.h.class, n.h.cons, n.h.tag);
    if n.h.len == Len::Indef || !n.h.minlen || b[n.start..n.start + n.h.taglen] != t[..] {
        return false;
    }
    let c = &b[n.cs..n.ce];
    match &n.val {
        Val::Bool(_) => c == [0] || c == [0xff],
        Val::Null | Val::Eoc => c.is_empty(),
        Val::Enum(_) => model::int_minimal(c) && c[0] < 0x80,
        Val::Time(t) => c == &time_text(t.year, [t.month, t.day, t.hour, t.minute, t.second], t.ms, t.zone, n.h.tag == 23)[..],
        Val::List(l) => l.iter().all(|k| canonical(b, k)),
        _ => true,
    }
}

fn c15_parsed(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    if matches!(model::ber(i), Err(model::No::Unspec)) {
        // (tag numbers above 32 bits, fractions of more than 3 digits)
        w.skipped += 1;
        return Ok(());
    }
    w.calls += 2;
    let mut seen: Option<Vec<u8>> = None;
    for (who, p) in [("parse_ber", parse_ber as fn(&[u8]) -> R), ("parse_der", parse_der)] {
        let (rem, o) = match p(i) {
            Ok(x) => x,
            Err(_) => {
                w.refused += 1;
                continue;
            }
        };
        w.accepted += 1;
        w.compared += 1;
        let used = i.len() - rem.len();
        let out = o.to_vec().map_err(|e| format!("{}: cannot be encoded: {:?}", who, e))?;
        if seen.as_ref() != Some(&out) {
            well_formed(&out).map_err(|e| format!("{}: {}", who, e))?;
            w.calls += 2;
            let (r, o2) = parse_ber(&out).map_err(|e| format!("{}: encoding {} does not decode: {:?}", who, hex(&out), e))?;
            if !r.is_empty() || !value_eq(&o, &o2) {
                return Err(format!("{}: encoding {} decodes as {:.300?}, expected {:.300?}", who, hex(&out[..out.len().min(200)]), o2, o));
            }
        }
        if let Ok(n) = model::ber(i) {
            if n.end == used && canonical(i, &n) && out != i[..used] {
                return Err(format!("{}: a canonical element is encoded as {}", who, hex(&out[..out.len().min(200)])));
            }
        }
        seen = Some(out);
    }
    Ok(())
}

fn c15_built(w: &mut Worker, o: &O) -> Result<(), String> {
    w.calls += 3;
    w.compared += 1;
    let want = enc(o);
    let out = o.to_vec().map_err(|e| format!("cannot be encoded: {:?}", e))?;
    let out2 = gen_simple(ber_encode_object(o), Vec::new()).map_err(|e| format!("cannot be encoded: {:?}", e))?;
    if out != out2 {
        return Err("to_vec and ber_encode_object differ".into());
    }
    if want.is_empty() {
        return if out.is_empty() { Ok(()) } else { Err(format!("absent value encoded as {}", hex(&out))) };
    }
    well_formed(&out)?;
    if unique(&o.content) && out != want {
        return Err(format!("encoded as {}, expected {}", hex(&out[..out.len().min(200)]), hex(&want[..want.len().min(200)])));
    }
    let (r, a) = parse_ber(&out).map_err(|e| format!("encoding {} does not decode: {:?}", hex(&out), e))?;
    let (_, b) = parse_ber(&want).map_err(|e| format!("harness: {:?}", e))?;
    if !r.is_empty() || !value_eq(&a, &b) {
        return Err(format!("encoding {} decodes as {:.300?}, expected {:.300?}", hex(&out), a, b));
    }
    // the value itself, through what holds it
    fn held<'x, 'o>(o: &'x BerObject<'o>) -> &'x BerObject<'o> {
        match &o.content {
            BerObjectContent::Optional(Some(x)) => held(x),
            _ => o,
        }
    }
    let h = held(o);
    let plain = |c: &BerObjectContent| -> bool {
        fn f(c: &BerObjectContent) -> bool {
            match c {
                BerObjectContent::Optional(_) | BerObjectContent::Tagged(..) => false,
                BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => v.iter().all(|o| f(&o.content)),
                _ => true,
            }
        }
        f(c)
    };
    if let BerObjectContent::Tagged(c, t, x) = &h.content {
        if *c != Class::Universal && !enc(x).is_empty() {
            let (r, y) = parse_ber_tagged_explicit(t.0, parse_ber)(&out).map_err(|e| format!("encoding {} does not decode as explicit {}: {:?}", hex(&out), t.0, e))?;
            if !r.is_empty() || y.header.class() != *c {
                return Err(format!("explicit tag of {}", hex(&out)));
            }
            match &y.content {
                BerObjectContent::Tagged(c2, t2, z) if c2 == c && t2 == t && (!plain(&x.content) || value_eq(z, x)) => {}
                _ => return Err(format!("tagged value comes back as {:.300?}", y)),
            }
            // and through the parser that makes such objects
            let (_, back) = parse_ber_explicit_optional(&out, *t, parse_ber).map_err(|e| format!("{:?}", e))?;
            let back = back.as_optional().map_err(|e| format!("{:?}", e))?.ok_or("explicit_optional reports absence")?;
            let (c2, t2, x2) = back.as_tagged().map_err(|e| format!("{:?}", e))?;
            if c2 != *c || t2 != *t || (plain(&x.content) && !value_eq(x2, x)) {
                return Err(format!("explicit object comes back as {:.300?}", back));
            }
        }
    } else if plain(&h.content) && !value_eq(h, &a) {
        return Err(format!("decodes as {:.300?}", a));
    }
    Ok(())
}

/// Wrapping with tags and decoding through the tagged parsers
fn c15_tagged(w: &mut Worker, o: &BerObject, tag: u32, class: Class) -> Result<(), String> {
    w.compared += 1;
    w.calls += 8;
    let cl = class_u8(class);
    let e = gen_simple(ber_encode_tagged_explicit(Tag(tag), class, o), Vec::new()).map_err(|e| format!("{:?}", e))?;
    let inner = o.to_vec().map_err(|e| format!("{:?}", e))?;
    if e != tlv(cl, true, tag, &inner) {
        return Err(format!("explicit [{} {}]: encoded as {}", class, tag, hex(&e[..e.len().min(200)])));
    }
    let im = gen_simple(ber_encode_tagged_implicit(Tag(tag), class, o), Vec::new()).map_err(|e| format!("{:?}", e))?;
    let (ih, cs, ce, end) = model::frame(&inner).map_err(|e| format!("harness {:?}", e))?;
    if end != inner.len() || im != tlv(cl, ih.cons, tag, &inner[cs..ce]) {
        return Err(format!("implicit [{} {}]: encoded as {}", class, tag, hex(&im[..im.len().min(200)])));
    }
    if class == Class::Universal {
        return Ok(());
    }
    // explicit
    let (r, v) = parse_ber_tagged_explicit(tag, parse_ber)(&e).map_err(|x| format!("explicit {}: {:?}", tag, x))?;
    if !r.is_empty() || v.header.class() != class || v.header.tag().0 != tag || !is_tagged(&v, class, tag, o) {
        return Err(format!("explicit [{} {}] decodes as {:.300?}", class, tag, v));
    }
    let (r, v) = parse_ber_tagged_explicit_g(tag, |c, h: Header| {
        if h.class() != class || h.tag().0 != tag || !h.constructed() {
            return Err(der_parser::nom::Err::Error(BerError::InvalidTag));
        }
        parse_ber(c)
    })(&e).map_err(|x| format!("explicit_g {}: {:?}", tag, x))?;
    if !r.is_empty() || !value_eq(&v, o) {
        return Err(format!("explicit_g [{} {}] decodes as {:.300?}", class, tag, v));
    }
    // implicit
    let t = o.header.tag();
    let (r, v) = parse_ber_tagged_implicit(tag, parse_ber_content(t))(&im).map_err(|x| format!("implicit {}: {:?}", tag, x))?;
    if !r.is_empty() || !value_content_eq(&v.content, &o.content) {
        return Err(format!("implicit [{} {}] decodes as {:.300?}", class, tag, v));
    }
    let (r, v) = parse_ber_implicit(&im, tag, parse_ber_content(t)).map_err(|x| format!("parse_ber_implicit {}: {:?}", tag, x))?;
    if !r.is_empty() || v.header.class() != class || v.header.tag().0 != tag || v.header.constructed() != o.header.constructed() || !value_content_eq(&v.content, &o.content) {
        return Err(format!("parse_ber_implicit [{} {}] decodes as {:.300?}", class, tag, v));
    }
    // what the tagged parsers return is encoded back to the same octets
    let again = v.to_vec().map_err(|e| format!("{:?}", e))?;
    if again != im {
        return Err(format!("implicit object is encoded as {}, was {}", hex(&again), hex(&im)));
    }
    // .. and can be wrapped again
    for (c2, t2) in [(Class::Private, 7u32), (Class::ContextSpecific, 31), (class, tag)] {
        let cl2 = class_u8(c2);
        let x = gen_simple(ber_encode_tagged_implicit(Tag(t2), c2, &v), Vec::new()).map_err(|e| format!("{:?}", e))?;
        if x != tlv(cl2, ih.cons, t2, &inner[cs..ce]) {
            return Err(format!("implicit [{} {}] around implicit [{} {}]: encoded as {}", c2, t2, class, tag, hex(&x[..x.len().min(200)])));
        }
        let x = gen_simple(ber_encode_tagged_explicit(Tag(t2), c2, &v), Vec::new()).map_err(|e| format!("{:?}", e))?;
        if x != tlv(cl2, true, t2, &im) {
            return Err(format!("explicit [{} {}] around implicit [{} {}]: encoded as {}", c2, t2, class, tag, hex(&x[..x.len().min(200)])));
        }
        let (_, ev) = parse_ber_tagged_explicit(tag, parse_ber)(&e).map_err(|x| format!("{:?}", x))?;
        let x = gen_simple(ber_encode_tagged_explicit(Tag(t2), c2, &ev), Vec::new()).map_err(|e| format!("{:?}", e))?;
        if x != tlv(cl2, true, t2, &e) {
            return Err(format!("explicit [{} {}] around explicit [{} {}]: encoded as {}", c2, t2, class, tag, hex(&x[..x.len().min(200)])));
        }
    }
    let (_, v) = parse_ber_explicit_optional(&e, Tag(tag), parse_ber).map_err(|x| format!("{:?}", x))?;
    let again = v.to_vec().map_err(|e| format!("{:?}", e))?;
    if again != e {
        return Err(format!("explicit optional object is encoded as {}, was {}", hex(&again), hex(&e)));
    }
    let (_, v) = parse_ber_optional(parse_ber)(&inner).map_err(|x| format!("{:?}", x))?;
    let again = v.to_vec().map_err(|e| format!("{:?}", e))?;
    if again != inner {
        return Err(format!("optional object is encoded as {}, was {}", hex(&again), hex(&inner)));
    }
    Ok(())
}
fn is_tagged(v: &BerObject, class: Class, tag: u32, inner: &BerObject) -> bool {
    matches!(&v.content, BerObjectContent::Tagged(c, t, x) if *c == class && t.0 == tag && value_eq(x, inner))
}

fn c15_header(w: &mut Worker, class: Class, cons: bool, tag: u32, len: Length) -> Result<(), String> {
    w.calls += 2;
    w.compared += 1;
    let h = Header::new(class, cons, Tag(tag), len);
    let out = gen_simple(ber_encode_header(&h), Vec::new()).map_err(|e| format!("{:?}", e))?;
    let mut want = vec![];
    put_tag(&mut want, class_u8(class), cons, tag);
    match len {
        Length::Definite(n) => put_len(&mut want, n),
        Length::Indefinite => want.push(0x80),
    }
    if out != want {
        return Err(format!("header {:?} encoded as {}, expected {}", h, hex(&out), hex(&want)));
    }
    if cons || len != Length::Indefinite {
        let (r, b) = ber_read_element_header(&out).map_err(|e| format!("encoded header {} does not decode: {:?}", hex(&out), e))?;
        if !r.is_empty() || b.class() != class || b.constructed() != cons || b.tag().0 != tag || b.length() != len {
            return Err(format!("header {:?} decodes as {:?}", h, b));
        }
    }
    // raw encoding takes the header as it is
    let c = BerObjectContent::OctetString(b"\x01\x02");
    let raw = gen_simple(ber_encode_object_raw(&h, &c), Vec::new()).map_err(|e| format!("{:?}", e))?;
    let mut want2 = want.clone();
    want2.extend_from_slice(&[1, 2]);
    if raw != want2 {
        return Err(format!("raw encoding of {:?} is {}", h, hex(&raw)));
    }
    Ok(())
}

fn tag_numbers(max: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..=max).collect();
    for k in 0..32 {
        let p = 1u32 << k;
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
    }
    v.push(u32::MAX);
    v.push(u32::MAX - 1);
    v.sort();
    v.dedup();
    v
}

pub fn c15(ctx: &Ctx) {
    let sp = standard(ctx, 1);
    explore(ctx, &sp, c15_parsed);
    explore(ctx, &[string_positions(false), int_contents(2, 18).wrap(|c| tlv(0, false, 2, c))], c15_parsed);
    explore(ctx, &crate::p_value::time_spaces(), c15_parsed);
    // ENUMERATED values
    let en = Space::new("enumerated", 256, |sh, e| {
        for y in 0..=255u8 {
            for c in [&[sh as u8, y][..], &[sh as u8, y, 0], &[sh as u8, 0, 0, y], &[0, sh as u8, y], &[0, sh as u8, 0, 0, y]] {
                if !e(&tlv(0, false, 10, c)) {
                    return;
                }
            }
        }
    });
    explore(ctx, &[en], c15_parsed);
    // values the parser does not read (more than 32 bits): the shortest non-negative INTEGER
    ctx.par("wide-enumerated", 64, |k, w| {
        for m in [0x80u64, 0x81, 0xff, 0xc0, 0xaa] {
            for d in [0u64, 1, u64::MAX] {
                let v = (m << 56 >> k).wrapping_add(d);
                let ok = w.case(&v.to_be_bytes(), "value", |w| {
                    let mut c: Vec<u8> = v.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
                    if c.first().map_or(true, |x| *x >= 0x80) {
                        c.insert(0, 0);
                    }
                    let o = BerObject::from_obj(BerObjectContent::Enum(v));
                    w.calls += 1;
                    match o.to_vec() {
                        Ok(b) if b == tlv(0, false, 10, &c) => Ok(()),
                        r => Err(format!("Enum({}) encoded as {:x?}", v, r)),
                    }
                });
                if !ok {
                    return;
                }
            }
        }
    });
    let lens: Vec<usize> = (0..=ctx.pick(300, 1100)).chain([1000, 4095, 65535, 65536, 70000]).collect();
    let objs = built(ctx.pick(3, 4), &lens);
    explore_built(ctx, "constructed-objects", &objs, c15_built);
    // headers
    let tn = tag_numbers(ctx.pick(5000, 70000));
    let mut ls: Vec<Length> = vec![Length::Indefinite];
    for k in 0..64 {
        let p = 1usize << k;
        ls.extend([p.wrapping_sub(1), p, p.wrapping_add(1)].map(Length::Definite));
    }
    ls.extend((0..600usize).map(Length::Definite));
    ls.push(Length::Definite(usize::MAX));
    ctx.par("headers", tn.len() + ls.len(), |sh, w| {
        for class in CLASSES {
            for cons in [false, true] {
                if sh < tn.len() {
                    for l in [Length::Indefinite, Length::Definite(0), Length::Definite(127), Length::Definite(128), Length::Definite(65536)] {
                        let id = [class_u8(class) * 2 + cons as u8];
                        if !w.case(&id, &format!("tag {} {:?}", tn[sh], l), |w| c15_header(w, class, cons, tn[sh], l)) {
                            return;
                        }
                    }
                } else {
                    let l = ls[sh - tn.len()];
                    for t in [0u32, 2, 30, 31, 1000] {
                        let id = [class_u8(class) * 2 + cons as u8];
                        if !w.case(&id, &format!("tag {} {:?} L", t, l), |w| c15_header(w, class, cons, t, l)) {
                            return;
                        }
                    }
                }
            }
        }
    });
    // tagging
    let mut inner: Vec<O> = leaf_contents(&[0, 1, 2, 4, 126, 127, 128, 255, 256])
        .into_iter()
        .filter(|c| !matches!(c, BerObjectContent::GeneralizedTime(t) | BerObjectContent::UTCTime(t) if t.year != 24 && t.year != 2024 && t.year != 99))
        .filter(|c| !matches!(c, BerObjectContent::Unknown(_)))
        .map(BerObject::from_obj)
        .collect();
    inner.extend(built_trees(3).into_iter().filter(|o| {
        fn plain(o: &BerObject) -> bool {
            match &o.content {
                BerObjectContent::Optional(_) | BerObjectContent::Tagged(..) | BerObjectContent::Unknown(_) => false,
                BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => v.iter().all(plain),
                _ => true,
            }
        }
        plain(o) && enc(o).len() < 2000
    }));
    // (one level of nesting is left for the wrapper)
    inner.retain(|o| model::ber(&enc(o)).map(|n| n.levels() < 49).unwrap_or(false));
    let few = [0u32, 1, 2, 15, 16, 17, 29, 30, 31, 32, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX];
    ctx.par("tagged", inner.len(), |sh, w| {
        for class in CLASSES {
            for t in few {
                let id = [(sh >> 16) as u8, (sh >> 8) as u8, sh as u8, class_u8(class)];
                if !w.case(&id, &t.to_string(), |w| c15_tagged(w, &inner[sh], t, class).map_err(|e| format!("object {}: {}", brief(&inner[sh]), e))) {
                    return;
                }
            }
        }
    });
    let seven: Vec<O> = vec![BerObject::from_int_slice(&[5]), BerObject::from_seq(vec![BerObject::from_obj(BerObjectContent::Null)]), BerObject::from_obj(BerObjectContent::OctetString(b""))];
    ctx.par("tagged-numbers", tn.len(), |sh, w| {
        for class in CLASSES {
            for (k, o) in seven.iter().enumerate() {
                let id = [k as u8, class_u8(class)];
                if !w.case(&id, &tn[sh].to_string(), |w| c15_tagged(w, o, tn[sh], class)) {
                    return;
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C16
/// FNV-style digest of a value
#[derive(Clone, Copy, PartialEq)]
struct Dig(u64);
impl Dig {
    fn new(k: u64) -> Dig {
        Dig(0xcbf29ce484222325 ^ k.wrapping_mul(0x9e3779b97f4a7c15))
    }
    fn u(mut self, x: u64) -> Dig {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
        self
    }
    fn b(mut self, s: &[u8]) -> Dig {
        self = self.u(s.len() as u64 + 1);
        for c in s.chunks(8) {
            let mut x = 0u64;
            for y in c {
                x = x << 8 | *y as u64;
            }
            self = self.u(x);
        }
        self
    }
    fn t(self, t: &ASN1DateTime) -> Dig {
        let z = match t.tz {
            ASN1TimeZone::Undefined => 1,
            ASN1TimeZone::Z => 2,
            ASN1TimeZone::Offset(h, m) => 1000 + (h as i64 + 200) as u64 * 1000 + (m as i64 + 200) as u64,
        };
        self.u(t.year as u64)
            .u(t.month as u64)
            .u(t.day as u64)
            .u(t.hour as u64)
            .u(t.minute as u64)
            .u(t.second as u64)
            .u(t.millisecond.map(|x| x as u64 + 1).unwrap_or(0))
            .u(z)
    }
    fn h(self, h: &Header) -> Dig {
        self.u(class_u8(h.class()) as u64).u(h.tag().0 as u64).u(h.constructed() as u64).u(match h.length() {
            Length::Definite(n) => n as u64,
            Length::Indefinite => u64::MAX,
        })
    }
    fn o(self, o: &BerObject) -> Dig {
        self.h(&o.header).c(&o.content)
    }
    fn l(self, v: &[BerObject]) -> Dig {
        let mut d = self.u(v.len() as u64);
        for o in v {
            d = d.o(o);
        }
        d
    }
    fn a(self, a: &Any) -> Dig {
        self.h(&a.header).b(a.data)
    }
    fn c(self, c: &BerObjectContent) -> Dig {
        use BerObjectContent::*;
        let d = self.u(ctype(c) as u64);
        match c {
            EndOfContent | Null => d,
            Boolean(b) => d.u(*b as u64),
            Integer(s) | OctetString(s) | BmpString(s) | UniversalString(s) => d.b(s),
            BitString(u, b) => d.u(*u as u64).b(b.data),
            Enum(x) => d.u(*x),
            OID(o) | RelativeOID(o) => d.b(o.as_bytes()),
            UTCTime(t) | GeneralizedTime(t) => d.t(t),
            Sequence(v) | Set(v) => d.l(v),
            Optional(None) => d,
            Optional(Some(o)) => d.o(o),
            Tagged(c, t, o) => d.u(class_u8(*c) as u64).u(t.0 as u64).o(o),
            Unknown(a) => d.a(a),
            c => d.b(str_of(c).unwrap().1.as_bytes()),
        }
    }
}
/// the types, as callback numbers (0: the generic callback)
fn ctype(c: &BerObjectContent) -> u8 {
    use BerObjectContent::*;
    match c {
        BitString(..) => 1,
        BmpString(_) => 2,
        Boolean(_) => 3,
        EndOfContent => 4,
        Enum(_) => 5,
        GeneralString(_) => 6,
        GeneralizedTime(_) => 7,
        GraphicString(_) => 8,
        IA5String(_) => 9,
        Integer(_) => 10,
        Null => 11,
        NumericString(_) => 12,
        OID(_) => 13,
        ObjectDescriptor(_) => 14,
        OctetString(_) => 15,
        Optional(_) => 16,
        PrintableString(_) => 17,
        RelativeOID(_) => 18,
        Sequence(_) => 19,
        Set(_) => 20,
        T61String(_) => 21,
        Tagged(..) => 22,
        UTCTime(_) => 23,
        UTF8String(_) => 24,
        UniversalString(_) => 25,
        Unknown(_) => 26,
        VideotexString(_) => 27,
        VisibleString(_) => 28,
    }
}
const CB: [&str; 29] = [
    "visit_ber", "bitstring", "bmpstring", "boolean", "endofcontent", "enum", "generalstring", "generalizedtime", "graphicstring", "ia5string", "integer",
    "null", "numericstring", "oid", "objectdescriptor", "octetstring", "optional", "printablestring", "relative_oid", "sequence", "set", "teletexstring",
    "tagged", "utctime", "utf8string", "universalstring", "unknown", "videotexstring", "visiblestring",
];
type Ev = (u8, usize, u64);
/// what the type's own callback is given
fn value_dig(c: &BerObjectContent) -> u64 {
    use BerObjectContent::*;
    let d = Dig::new(ctype(c) as u64);
    match c {
        EndOfContent | Null => d,
        Boolean(b) => d.u(*b as u64),
        Integer(s) | OctetString(s) | BmpString(s) | UniversalString(s) => d.b(s),
        BitString(u, b) => d.u(*u as u64).b(b.data),
        Enum(x) => d.u(*x),
        OID(o) | RelativeOID(o) => d.b(o.as_bytes()),
        UTCTime(t) | GeneralizedTime(t) => d.t(t),
        Sequence(v) | Set(v) => d.l(v),
        Optional(None) => d,
        Optional(Some(o)) => d.o(o),
        Tagged(c, t, o) => d.u(class_u8(*c) as u64).u(t.0 as u64).o(o),
        Unknown(a) => d.a(a),
        c => d.b(str_of(c).unwrap().1.as_bytes()),
    }
    .0
}
fn expected_visit(o: &BerObject, depth: usize, log: &mut Vec<Ev>) {
    log.push((0, depth, Dig::new(0).o(o).0));
    log.push((ctype(&o.content), depth, value_dig(&o.content)));
    if let BerObjectContent::Sequence(v) | BerObjectContent::Set(v) = &o.content {
        for k in v {
            expected_visit(k, depth + 1, log);
        }
    }
}
#[derive(Default)]
struct Log(Vec<Ev>);
macro_rules! ev {
    ($s:ident, $n:expr, $d:expr, $m:ident $(, $x:expr)*) => {
        $s.0.push(($n, $d, Dig::new($n as u64).$m($($x),*).0))
    };
}
impl Dig {
    fn none(self) -> Dig {
        self
    }
}
impl<'a> Visit<'a> for Log {
    fn visit_ber(&mut self, o: &'_ BerObject<'a>, d: usize) { ev!(self, 0, d, o, o) }
    fn visit_ber_bitstring(&mut self, u: u8, b: &'a BitStringObject, d: usize) { self.0.push((1, d, Dig::new(1).u(u as u64).b(b.data).0)) }
    fn visit_ber_bmpstring(&mut self, s: &'a [u8], d: usize) { ev!(self, 2, d, b, s) }
    fn visit_ber_boolean(&mut self, b: bool, d: usize) { ev!(self, 3, d, u, b as u64) }
    fn visit_ber_endofcontent(&mut self, d: usize) { ev!(self, 4, d, none) }
    fn visit_ber_enum(&mut self, e: u64, d: usize) { ev!(self, 5, d, u, e) }
    fn visit_ber_generalstring(&mut self, s: &'a str, d: usize) { ev!(self, 6, d, b, s.as_bytes()) }
    fn visit_ber_generalizedtime(&mut self, t: &'a ASN1DateTime, d: usize) { ev!(self, 7, d, t, t) }
    fn visit_ber_graphicstring(&mut self, s: &'a str, d: usize) { ev!(self, 8, d, b, s.as_bytes()) }
    fn visit_ber_ia5string(&mut self, s: &'a str, d: usize) { ev!(self, 9, d, b, s.as_bytes()) }
    fn visit_ber_integer(&mut self, s: &'a [u8], d: usize) { ev!(self, 10, d, b, s) }
    fn visit_ber_null(&mut self, d: usize) { ev!(self, 11, d, none) }
    fn visit_ber_numericstring(&mut self, s: &'a str, d: usize) { ev!(self, 12, d, b, s.as_bytes()) }
    fn visit_ber_oid(&mut self, o: &'a Oid, d: usize) { ev!(self, 13, d, b, o.as_bytes()) }
    fn visit_ber_objectdescriptor(&mut self, s: &'a str, d: usize) { ev!(self, 14, d, b, s.as_bytes()) }
    fn visit_ber_octetstring(&mut self, s: &'a [u8], d: usize) { ev!(self, 15, d, b, s) }
    fn visit_ber_optional(&mut self, o: Option<&'a BerObject<'a>>, d: usize) {
        match o {
            None => ev!(self, 16, d, none),
            Some(o) => ev!(self, 16, d, o, o),
        }
    }
    fn visit_ber_printablestring(&mut self, s: &'a str, d: usize) { ev!(self, 17, d, b, s.as_bytes()) }
    fn visit_ber_relative_oid(&mut self, o: &'a Oid, d: usize) { ev!(self, 18, d, b, o.as_bytes()) }
    fn visit_ber_sequence(&mut self, v: &'_ [BerObject<'a>], d: usize) { ev!(self, 19, d, l, v) }
    fn visit_ber_set(&mut self, v: &'_ [BerObject<'a>], d: usize) { ev!(self, 20, d, l, v) }
    fn visit_ber_teletexstring(&mut self, s: &'a str, d: usize) { ev!(self, 21, d, b, s.as_bytes()) }
    fn visit_ber_tagged(&mut self, c: Class, t: Tag, o: &'_ BerObject<'a>, d: usize) {
        self.0.push((22, d, Dig::new(22).u(class_u8(c) as u64).u(t.0 as u64).o(o).0))
    }
    fn visit_ber_utctime(&mut self, t: &'a ASN1DateTime, d: usize) { ev!(self, 23, d, t, t) }
    fn visit_ber_utf8string(&mut self, s: &'a str, d: usize) { ev!(self, 24, d, b, s.as_bytes()) }
    fn visit_ber_universalstring(&mut self, s: &'a [u8], d: usize) { ev!(self, 25, d, b, s) }
    fn visit_ber_videotextstring(&mut self, s: &'a str, d: usize) { ev!(self, 27, d, b, s.as_bytes()) }
    fn visit_ber_visiblestring(&mut self, s: &'a str, d: usize) { ev!(self, 28, d, b, s.as_bytes()) }
    fn visit_ber_unknown(&mut self, a: &'_ Any<'a>, d: usize) { ev!(self, 26, d, a, a) }
}

/// Edits made through the mutable visitor, at the n-th event
#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit {
    None,
    /// generic callback: replace the content
    Content(u8),
    /// generic callback: change the header
    Head,
    /// the type's own callback: change the value in place
    Value,
    /// list callbacks
    Clear,
    PopFirst,
    PopLast,
    Push,
    Replace0,
    Reverse,
    Nest,
}
const EDITS: [Edit; 14] = [
    Edit::None, Edit::Content(0), Edit::Content(1), Edit::Content(2), Edit::Content(3), Edit::Head, Edit::Value, Edit::Clear, Edit::PopFirst,
    Edit::PopLast, Edit::Push, Edit::Replace0, Edit::Reverse, Edit::Nest,
];
fn new_content<'a>(k: u8) -> BerObjectContent<'a> {
    match k {
        0 => BerObjectContent::Integer(&[0x2a]),
        1 => BerObjectContent::Sequence(vec![BerObject::from_obj(BerObjectContent::Boolean(true)), BerObject::from_set(vec![BerObject::from_obj(BerObjectContent::Null)])]),
        2 => BerObjectContent::Set(vec![]),
        _ => BerObjectContent::UTF8String("x"),
    }
}
fn edit_list<'a>(e: Edit, v: &mut Vec<BerObject<'a>>) {
    match e {
        Edit::Clear => v.clear(),
        Edit::PopFirst => {
            if !v.is_empty() {
                v.remove(0);
            }
        }
        Edit::PopLast => {
            v.pop();
        }
        Edit::Push => v.push(BerObject::from_obj(BerObjectContent::Enum(9))),
        Edit::Replace0 => {
            if let Some(x) = v.first_mut() {
                *x = BerObject::from_seq(vec![BerObject::from_obj(BerObjectContent::OctetString(b"zz"))])
            }
        }
        Edit::Reverse => v.reverse(),
        Edit::Nest => {
            let all = std::mem::take(v);
            v.push(BerObject::from_set(all));
        }
        _ => {}
    }
}
fn edit_generic<'a>(e: Edit, o: &mut BerObject<'a>) {
    match e {
        Edit::Content(k) => o.content = new_content(k),
        Edit::Head => o.header = Header::new(Class::Private, false, Tag(77), Length::Definite(3)),
        _ => {}
    }
}
/// the in-place change of a value the mutable callbacks allow (None: the callback's argument is
/// not mutable)
fn edit_value(c: &mut BerObjectContent) {
    use BerObjectContent::*;
    match c {
        BitString(u, b) => {
            *u = u.wrapping_add(1) % 8;
            b.data = &b.data[..b.data.len() / 2];
        }
        Boolean(b) => *b = !*b,
        Enum(x) => *x ^= 1,
        Integer(s) | BmpString(s) | UniversalString(s) => *s = &s[..s.len() / 2],
        NumericString(s) | VisibleString(s) | PrintableString(s) | IA5String(s) | T61String(s) | VideotexString(s) | ObjectDescriptor(s) | GraphicString(s)
        | GeneralString(s) => *s = "7",
        Tagged(c, t, o) => {
            *c = Class::Application;
            *t = Tag(t.0 ^ 1);
            o.content = Null;
        }
        Optional(Some(o)) => o.content = Boolean(false),
        OID(o) => *o = Oid::new((&[0x2b][..]).into()),
        RelativeOID(o) => *o = Oid::new_relative((&[0x2b][..]).into()),
        Unknown(a) => a.data = &a.data[..a.data.len() / 2],
        _ => {}
    }
}
struct Ed {
    log: Vec<Ev>,
    at: usize,
    edit: Edit,
}
impl Ed {
    fn hit(&mut self, n: u8, d: usize, g: Dig) -> bool {
        self.log.push((n, d, g.0));
        self.log.len() - 1 == self.at
    }
}
/// The expectation: the same traversal, by own code, on a copy
fn simulate(o: &mut BerObject, depth: usize, s: &mut Ed) {
    let g = Dig::new(0).o(o);
    if s.hit(0, depth, g) {
        edit_generic(s.edit, o);
    }
    let t = ctype(&o.content);
    let v = value_dig(&o.content);
    if s.hit(t, depth, Dig(v)) {
        match &mut o.content {
            BerObjectContent::Sequence(l) | BerObjectContent::Set(l) => edit_list(s.edit, l),
            c => {
                if s.edit == Edit::Value {
                    edit_value(c)
                }
            }
        }
    }
    if let BerObjectContent::Sequence(l) | BerObjectContent::Set(l) = &mut o.content {
        for k in l.iter_mut() {
            simulate(k, depth + 1, s);
        }
    }
}
macro_rules! mutstr {
    ($($f:ident $n:expr),*) => { $(
        fn $f(&mut self, s: &'a mut &'_ str, d: usize) {
            if self.hit($n, d, Dig::new($n as u64).b(s.as_bytes())) && self.edit == Edit::Value {
                *s = "7"
            }
        }
    )* };
}
macro_rules! mutraw {
    ($($f:ident $n:expr),*) => { $(
        fn $f(&mut self, s: &'a mut &'_ [u8], d: usize) {
            if self.hit($n, d, Dig::new($n as u64).b(s)) && self.edit == Edit::Value {
                *s = &s[..s.len() / 2]
            }
        }
    )* };
}
impl<'a> VisitMut<'a> for Ed {
    fn visit_ber_mut(&mut self, o: &'_ mut BerObject<'a>, d: usize) {
        if self.hit(0, d, Dig::new(0).o(o)) {
            edit_generic(self.edit, o)
        }
    }
    fn visit_ber_bitstring_mut(&mut self, u: &mut u8, b: &'a mut BitStringObject, d: usize) {
        if self.hit(1, d, Dig::new(1).u(*u as u64).b(b.data)) && self.edit == Edit::Value {
            *u = u.wrapping_add(1) % 8;
            b.data = &b.data[..b.data.len() / 2];
        }
    }
    mutraw!(visit_ber_bmpstring_mut 2, visit_ber_integer_mut 10, visit_ber_universalstring_mut 25);
    fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, d: usize) {
        if self.hit(3, d, Dig::new(3).u(*b as u64)) && self.edit == Edit::Value {
            *b = !*b
        }
    }
    fn visit_ber_endofcontent_mut(&mut self, d: usize) {
        self.hit(4, d, Dig::new(4));
    }
    fn visit_ber_enum_mut(&mut self, e: &'a mut u64, d: usize) {
        if self.hit(5, d, Dig::new(5).u(*e)) && self.edit == Edit::Value {
            *e ^= 1
        }
    }
    mutstr!(visit_ber_generalstring_mut 6, visit_ber_graphicstring_mut 8, visit_ber_ia5string_mut 9, visit_ber_numericstring_mut 12,
        visit_ber_objectdescriptor_mut 14, visit_ber_printablestring_mut 17, visit_ber_teletexstring_mut 21, visit_ber_videotextstring_mut 27,
        visit_ber_visiblestring_mut 28);
    fn visit_ber_generalizedtime_mut(&mut self, t: &'a ASN1DateTime, d: usize) {
        self.hit(7, d, Dig::new(7).t(t));
    }
    fn visit_ber_null_mut(&mut self, d: usize) {
        self.hit(11, d, Dig::new(11));
    }
    fn visit_ber_oid_mut(&mut self, o: &'a mut Oid, d: usize) {
        if self.hit(13, d, Dig::new(13).b(o.as_bytes())) && self.edit == Edit::Value {
            *o = Oid::new((&[0x2b][..]).into())
        }
    }
    fn visit_ber_octetstring_mut(&mut self, b: &'a [u8], d: usize) {
        self.hit(15, d, Dig::new(15).b(b));
    }
    fn visit_ber_optional_mut(&mut self, o: Option<&'a mut BerObject<'a>>, d: usize) {
        let g = match &o {
            None => Dig::new(16),
            Some(o) => Dig::new(16).o(o),
        };
        if self.hit(16, d, g) && self.edit == Edit::Value {
            if let Some(o) = o {
                o.content = BerObjectContent::Boolean(false)
            }
        }
    }
    fn visit_ber_relative_oid_mut(&mut self, o: &'a mut Oid, d: usize) {
        if self.hit(18, d, Dig::new(18).b(o.as_bytes())) && self.edit == Edit::Value {
            *o = Oid::new_relative((&[0x2b][..]).into())
        }
    }
    fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        if self.hit(19, d, Dig::new(19).l(l)) {
            edit_list(self.edit, l)
        }
    }
    fn visit_ber_set_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        if self.hit(20, d, Dig::new(20).l(l)) {
            edit_list(self.edit, l)
        }
    }
    fn visit_ber_tagged_mut(&mut self, c: &'a mut Class, t: &'a mut Tag, o: &'a mut BerObject<'a>, d: usize) {
        if self.hit(22, d, Dig::new(22).u(class_u8(*c) as u64).u(t.0 as u64).o(o)) && self.edit == Edit::Value {
            *c = Class::Application;
            *t = Tag(t.0 ^ 1);
            o.content = BerObjectContent::Null;
        }
    }
    fn visit_ber_utctime_mut(&mut self, t: &'a ASN1DateTime, d: usize) {
        self.hit(23, d, Dig::new(23).t(t));
    }
    fn visit_ber_utf8string_mut(&mut self, s: &'a str, d: usize) {
        self.hit(24, d, Dig::new(24).b(s.as_bytes()));
    }
    fn visit_ber_unknown_mut(&mut self, a: &'_ mut Any<'a>, d: usize) {
        if self.hit(26, d, Dig::new(26).a(a)) && self.edit == Edit::Value {
            a.data = &a.data[..a.data.len() / 2]
        }
    }
}
fn show_log(l: &[Ev]) -> String {
    l.iter().take(24).map(|e| format!("{}@{}", CB[e.0 as usize], e.1)).collect::<Vec<_>>().join(" ")
}
/// run the mutable visitor (its signature ties the borrow to the object's own lifetime)
fn run_mut<'a>(v: &mut Ed, o: &mut BerObject<'a>, at: Option<usize>) {
    let r: &'a mut BerObject<'a> = unsafe { &mut *(o as *mut BerObject<'a>) };
    match at {
        None => VisitMut::run(v, r),
        Some(d) => VisitMut::run_at(v, r, d),
    }
}
fn c16_obj(w: &mut Worker, o: &BerObject, depths: &[usize], edits: usize) -> Result<(), String> {
    let mut want = vec![];
    expected_visit(o, 0, &mut want);
    let mut l = Log::default();
    w.calls += 1;
    w.compared += 1;
    l.run(o);
    if l.0 != want {
        return Err(format!("visitor saw {} events: {}; expected {}: {}", l.0.len(), show_log(&l.0), want.len(), show_log(&want)));
    }
    for &d in depths {
        let mut l = Log::default();
        w.calls += 1;
        l.run_at(o, d);
        if l.0.len() != want.len() || !l.0.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.2 == b.2 && a.1 == b.1 + d) {
            return Err(format!("run_at({}): {}; expected {} (depth + {})", d, show_log(&l.0), show_log(&want), d));
        }
    }
    // the mutable visitor without edits
    let mut c = o.clone();
    let mut v = Ed { log: vec![], at: usize::MAX, edit: Edit::None };
    w.calls += 1;
    run_mut(&mut v, &mut c, None);
    if v.log != want || !deep_eq(&c, o) {
        return Err(format!("mutable visitor: {}; expected {}; object unchanged: {}", show_log(&v.log), show_log(&want), deep_eq(&c, o)));
    }
    let n = want.len();
    if n > edits {
        return Ok(());
    }
    for at in 0..n {
        let list = want[at].0 == 19 || want[at].0 == 20;
        for e in EDITS {
            let applies = match e {
                Edit::None => false,
                Edit::Content(_) | Edit::Head => want[at].0 == 0,
                Edit::Value => want[at].0 != 0 && !list,
                _ => list,
            };
            if !applies {
                continue;
            }
            let mut a = o.clone();
            let mut b = o.clone();
            let mut x = Ed { log: vec![], at, edit: e };
            let mut y = Ed { log: vec![], at, edit: e };
            let d = if at % 2 == 0 { None } else { Some(3) };
            w.calls += 1;
            run_mut(&mut x, &mut a, d);
            simulate(&mut b, d.unwrap_or(0), &mut y);
            if x.log != y.log {
                return Err(format!("{:?} at event {}: mutable visitor saw {}; expected {}", e, at, show_log(&x.log), show_log(&y.log)));
            }
            if !deep_eq(&a, &b) {
                return Err(format!("{:?} at event {}: object is {:.300?}, expected {:.300?}", e, at, a, b));
            }
        }
    }
    Ok(())
}
pub fn c16(ctx: &Ctx) {
    let sp = standard(ctx, 1);
    let lim = ctx.pick(14, 40);
    explore(ctx, &sp, |w, i| match parse_ber(i) {
        Ok((_, o)) => {
            w.accepted += 1;
            c16_obj(w, &o, &[1, 7], lim)
        }
        Err(_) => {
            w.refused += 1;
            Ok(())
        }
    });
    let objs = built(ctx.pick(3, 4), &[0, 1, 2, 3, 4, 8, 16, 130]);
    explore_built(ctx, "constructed-objects", &objs, |w, o| c16_obj(w, o, &[0, 1, 2, 50, 1 << 40, usize::MAX - 64], 40));
}

// ------------------------------------------------------------------ C17
fn same_ptr(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr())
}
fn expect<T: std::fmt::Debug>(what: &str, ok: bool, r: Result<T, BerError>, same: impl Fn(&T) -> bool) -> Result<(), String> {
    match r {
        Ok(v) if ok && same(&v) => Ok(()),
        Err(_) if !ok => Ok(()),
        r => Err(format!("{}: {:.200?} (should {})", what, r, if ok { "give the stored value" } else { "fail" })),
    }
}
fn c17_obj(w: &mut Worker, o: &BerObject, panics: bool) -> Result<(), String> {
    use BerObjectContent::*;
    w.compared += 1;
    w.calls += 20;
    let c = &o.content;
    // accessors, on the object and on its content
    let is = |f: fn(&BerObjectContent) -> bool| f(c);
    let b = |v: &bool| matches!(c, Boolean(x) if x == v);
    expect("as_bool", is(|c| matches!(c, Boolean(_))), o.as_bool(), b)?;
    expect("content.as_bool", is(|c| matches!(c, Boolean(_))), c.as_bool(), b)?;
    let isoid = is(|c| matches!(c, OID(_) | RelativeOID(_)));
    let oid = |v: &Oid| matches!(c, OID(x) | RelativeOID(x) if x.as_bytes() == v.as_bytes() && x == v);
    expect("as_oid", isoid, o.as_oid(), |v| oid(v))?;
    expect("content.as_oid", isoid, c.as_oid(), |v| oid(v))?;
    expect("as_oid_val", isoid, o.as_oid_val(), |v| oid(v))?;
    expect("content.as_oid_val", isoid, c.as_oid_val(), |v| oid(v))?;
    let isopt = is(|c| matches!(c, Optional(_)));
    let opt = |v: &Option<&BerObject>| match (c, v) {
        (Optional(None), None) => true,
        (Optional(Some(x)), Some(y)) => std::ptr::eq(&**x, *y) || deep_eq(x, y),
        _ => false,
    };
    expect("as_optional", isopt, o.as_optional(), opt)?;
    expect("content.as_optional", isopt, c.as_optional(), opt)?;
    let istag = is(|c| matches!(c, Tagged(..)));
    let tag = |v: &(Class, Tag, &BerObject)| matches!(c, Tagged(x, y, z) if *x == v.0 && *y == v.1 && deep_eq(z, v.2));
    expect("as_tagged", istag, o.as_tagged(), tag)?;
    expect("content.as_tagged", istag, c.as_tagged(), tag)?;
    let isbits = is(|c| matches!(c, BitString(..)));
    let bits = |v: &[u8]| matches!(c, BitString(_, x) if same_ptr(x.data, v));
    expect("as_bitstring_ref", isbits, o.as_bitstring_ref(), |v| bits(v.data))?;
    expect("content.as_bitstring_ref", isbits, c.as_bitstring_ref(), |v| bits(v.as_ref()))?;
    expect("as_bitstring", isbits, o.as_bitstring(), |v| bits(v.data))?;
    expect("content.as_bitstring", isbits, c.as_bitstring(), |v| bits(v.data))?;
    let list = |v: &&Vec<BerObject>| matches!(c, Sequence(x) | Set(x) if x.len() == v.len() && x.iter().zip(v.iter()).all(|(a, b)| std::ptr::eq(a, b)));
    expect("as_sequence", is(|c| matches!(c, Sequence(_))), o.as_sequence(), list)?;
    expect("content.as_sequence", is(|c| matches!(c, Sequence(_))), c.as_sequence(), list)?;
    expect("as_set", is(|c| matches!(c, Set(_))), o.as_set(), list)?;
    expect("content.as_set", is(|c| matches!(c, Set(_))), c.as_set(), list)?;
    let raw: Option<&[u8]> = match c {
        Integer(s) | OctetString(s) | BmpString(s) | UniversalString(s) => Some(s),
        BitString(_, b) => Some(b.data),
        Unknown(a) => Some(a.data),
        c => str_of(c).map(|x| x.1.as_bytes()),
    };
    expect("as_slice", raw.is_some(), o.as_slice(), |v| same_ptr(v, raw.unwrap()))?;
    expect("content.as_slice", raw.is_some(), c.as_slice(), |v| same_ptr(v, raw.unwrap()))?;
    let st = str_of(c).map(|x| x.1);
    expect("as_str", st.is_some(), o.as_str(), |v| same_ptr(v.as_bytes(), st.unwrap().as_bytes()))?;
    expect("content.as_str", st.is_some(), c.as_str(), |v| same_ptr(v.as_bytes(), st.unwrap().as_bytes()))?;
    // bit views: of whatever has a slice
    match (o.as_bitslice(), raw) {
        (Ok(b), Some(r)) if b.len() == r.len() * 8 => {}
        (Err(_), None) => {}
        (r, _) => return Err(format!("as_bitslice: {:.100?}", r.map(|b| b.len()))),
    }
    // numbers: only their own types (values: C09, C10)
    let (oi, ob, oe) = (matches!(c, Integer(_)), matches!(c, BitString(..)), matches!(c, Enum(_)));
    if !oi {
        if o.as_i64().is_ok() || o.as_i32().is_ok() || o.as_bigint().is_ok() || o.as_biguint().is_ok() {
            return Err("a signed or big integer was read from another type".into());
        }
        if !ob && !oe && (o.as_u64().is_ok() || o.as_u32().is_ok() || c.as_u64().is_ok() || c.as_u32().is_ok()) {
            return Err("an unsigned integer was read from another type".into());
        }
    }
    if let Enum(x) = c {
        if o.as_u64() != Ok(*x) || o.as_u32().ok() != u32::try_from(*x).ok() {
            return Err(format!("enumerated {} read as {:?} / {:?}", x, o.as_u64(), o.as_u32()));
        }
    }
    // header queries
    let h = &o.header;
    let cl = h.class();
    if o.class() != cl || o.tag() != h.tag() || o.length() != h.length() {
        return Err("header queries differ from the header".into());
    }
    let u = class_u8(cl);
    if [o.is_universal(), o.is_application(), o.is_contextspecific(), o.is_private()] != [u == 0, u == 1, u == 2, u == 3] {
        return Err("class queries".into());
    }
    if o.is_constructed() != h.constructed() || o.is_primitive() == h.constructed() {
        return Err("constructed queries".into());
    }
    if o.assert_constructed().is_ok() != h.constructed() || o.assert_primitive().is_ok() == h.constructed() {
        return Err("constructed assertions".into());
    }
    for k in CLASSES {
        if o.assert_class(k).is_ok() != (k == cl) {
            return Err(format!("assert_class({:?})", k));
        }
    }
    let t = h.tag().0;
    for k in [t, t ^ 1, t.wrapping_add(1), t.wrapping_sub(1), t ^ 0x20, t ^ 0x80, t ^ 0x8000_0000, t ^ 0x100, 16, 2] {
        if o.assert_tag(Tag(k)).is_ok() != (k == t) {
            return Err(format!("assert_tag({}) on tag {}", k, t));
        }
    }
    // iteration
    let kids: &[BerObject] = match c {
        Sequence(v) | Set(v) => v,
        _ => &[],
    };
    let mut n = 0;
    let mut it = o.ref_iter();
    for k in it.by_ref() {
        if n >= kids.len() || !std::ptr::eq(k, &kids[n]) {
            return Err(format!("ref_iter: item {} of {}", n, kids.len()));
        }
        n += 1;
    }
    if n != kids.len() || it.next().is_some() || it.next().is_some() {
        return Err(format!("ref_iter: {} items of {}", n, kids.len()));
    }
    let is_list = matches!(c, Sequence(_) | Set(_));
    let mut it = o.clone().into_iter();
    let mut n = 0;
    for k in it.by_ref() {
        if is_list {
            if n >= kids.len() || !deep_eq(&k, &kids[n]) {
                return Err(format!("into_iter: item {} of {}", n, kids.len()));
            }
        } else if n > 0 || !deep_eq(&k, o) {
            return Err(format!("into_iter of a non-list: item {}", n));
        }
        n += 1;
    }
    if n != (if is_list { kids.len() } else { 1 }) || it.next().is_some() || it.next().is_some() {
        return Err(format!("into_iter: {} items of {}", n, kids.len()));
    }
    for (k, x) in kids.iter().enumerate() {
        if !std::ptr::eq(&o[k], x) {
            return Err(format!("index {}", k));
        }
    }
    if panics {
        for k in [kids.len(), kids.len() + 1, usize::MAX] {
            let r = catch_unwind(AssertUnwindSafe(|| std::ptr::from_ref(&o[k]) as usize));
            if r.is_ok() {
                return Err(format!("index {} of {} gives an object", k, kids.len()));
            }
        }
    }
    // every way of driving an iterator: skipping, counting, asking for bounds, from every position
    if panics && kids.len() <= 12 {
        let all: Vec<&BerObject> = kids.iter().collect();
        drive("ref_iter", &all, || o.ref_iter(), |a, b| std::ptr::eq(*a, *b))?;
        let own: Vec<&BerObject> = if is_list { all } else { vec![o] };
        drive("into_iter", &own, || o.clone().into_iter(), |a, b| deep_eq(a, b))?;
    }
    // nested ones too
    for k in kids {
        c17_obj(w, k, false)?;
    }
    Ok(())
}
/// all the provided methods of an iterator against the list it stands for
fn drive<T, I: Iterator<Item = T>>(who: &str, all: &[&BerObject], make: impl Fn() -> I, same: impl Fn(&T, &&BerObject) -> bool) -> Result<(), String> {
    let n = all.len();
    let at = |x: Option<T>, k: usize| match x {
        Some(y) => k < n && same(&y, &all[k]),
        None => k >= n,
    };
    for s in 0..=n + 1 {
        let from = || {
            let mut it = make();
            for _ in 0..s {
                it.next();
            }
            it
        };
        let left = n.saturating_sub(s);
        let (lo, hi) = from().size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("{}: size_hint {:?} with {} items left", who, (lo, hi), left));
        }
        if from().count() != left {
            return Err(format!("{}: count {} with {} items left", who, from().count(), left));
        }
        if !at(from().last(), if left == 0 { n } else { n - 1 }) {
            return Err(format!("{}: last after {}", who, s));
        }
        if from().fold(s, |k, x| if at(Some(x), k) { k + 1 } else { usize::MAX - 100 }) != s.max(n) {
            return Err(format!("{}: fold after {}", who, s));
        }
        for k in [0, 1, 2, 3, n, n + 1] {
            let mut it = from();
            if !at(it.nth(k), s + k) || !at(it.next(), s + k + 1) {
                return Err(format!("{}: nth({}) after {} items", who, k, s));
            }
            if !from().skip(k).zip(s + k..).all(|(x, j)| at(Some(x), j)) || !from().step_by(k + 1).zip((s..).step_by(k + 1)).all(|(x, j)| at(Some(x), j)) {
                return Err(format!("{}: skip or step_by {} after {} items", who, k, s));
            }
            if from().take(k).count() != left.min(k) {
                return Err(format!("{}: take({}) after {} items", who, k, s));
            }
        }
    }
    Ok(())
}
/// tag number of each content type
fn type_tag(c: &BerObjectContent) -> u32 {
    use BerObjectContent::*;
    match c {
        EndOfContent => 0,
        Boolean(_) => 1,
        Integer(_) => 2,
        BitString(..) => 3,
        OctetString(_) => 4,
        Null => 5,
        OID(_) => 6,
        ObjectDescriptor(_) => 7,
        Enum(_) => 10,
        UTF8String(_) => 12,
        RelativeOID(_) => 13,
        Sequence(_) => 16,
        Set(_) => 17,
        NumericString(_) => 18,
        PrintableString(_) => 19,
        T61String(_) => 20,
        VideotexString(_) => 21,
        IA5String(_) => 22,
        UTCTime(_) => 23,
        GeneralizedTime(_) => 24,
        GraphicString(_) => 25,
        VisibleString(_) => 26,
        GeneralString(_) => 27,
        UniversalString(_) => 28,
        BmpString(_) => 30,
        Tagged(_, t, _) => t.0,
        Unknown(a) => a.header.tag().0,
        Optional(Some(o)) => type_tag(&o.content),
        Optional(None) => 0,
    }
}
fn c17_built(w: &mut Worker, src: &O) -> Result<(), String> {
    w.calls += 4;
    let c = src.content.clone();
    let t = type_tag(&c);
    let check = |what: &str, o: &BerObject, c: &BerObjectContent, t: u32| -> Result<(), String> {
        let cons = t == 16 || t == 17;
        if o.class() != Class::Universal || o.tag().0 != t || o.is_constructed() != cons || !content_eq(&o.content, c) || o.header.raw_tag().is_some() {
            return Err(format!("{}: {:.200?}", what, o));
        }
        Ok(())
    };
    check("from_obj", &BerObject::from_obj(c.clone()), &c, t)?;
    check("From<BerObjectContent>", &BerObject::from(c.clone()), &c, t)?;
    match &c {
        BerObjectContent::Integer(s) => check("from_int_slice", &BerObject::from_int_slice(s), &c, 2)?,
        BerObjectContent::Sequence(v) => check("from_seq", &BerObject::from_seq(v.clone()), &c, 16)?,
        BerObjectContent::Set(v) => check("from_set", &BerObject::from_set(v.clone()), &c, 17)?,
        BerObjectContent::OID(o) => check("From<Oid>", &BerObject::from(o.clone()), &c, 6)?,
        _ => {}
    }
    for class in CLASSES {
        for (cons, tag, len) in [(true, 3u32, Length::Definite(7)), (false, 99, Length::Indefinite)] {
            let h = Header::new(class, cons, Tag(tag), len).with_raw_tag(Some((&[1u8, 2][..]).into()));
            let o = BerObject::from_header_and_content(h.clone(), c.clone());
            if !header_eq(&o.header, &h) || o.header.raw_tag() != h.raw_tag() || !content_eq(&o.content, &c) {
                return Err(format!("from_header_and_content: {:.200?}", o));
            }
            let o2 = o.clone().set_raw_tag(Some(&[0x5f, 0x63]));
            if o2.header.raw_tag() != Some(&[0x5f, 0x63]) || o2.class() != class || o2.tag().0 != tag || o2.length() != len || o2.is_constructed() != cons || !content_eq(&o2.content, &c) {
                return Err(format!("set_raw_tag: {:.200?}", o2));
            }
            let o3 = o.set_raw_tag(None);
            if o3.header.raw_tag().is_some() || o3.class() != class || o3.tag().0 != tag || !content_eq(&o3.content, &c) {
                return Err(format!("set_raw_tag(None): {:.200?}", o3));
            }
        }
    }
    c17_obj(w, src, true)
}
pub fn c17(ctx: &Ctx) {
    let sp = standard(ctx, 1);
    explore(ctx, &sp, |w, i| match parse_ber(i) {
        Ok((_, o)) => {
            w.accepted += 1;
            // header queries reflect what was parsed
            if let Ok(h) = model::header(i) {
                cmp_header(i, &o.header, &h, 0)?;
                if o.header.raw_tag() != Some(&i[..h.taglen]) {
                    return Err("raw tag octets".into());
                }
            }
            // what the constructor makes of the same content is the same object
            let t = type_tag(&o.content);
            if o.is_universal() && o.tag().0 == t && o.is_constructed() == (t == 16 || t == 17) && !matches!(o.content, BerObjectContent::Unknown(_)) {
                let b = BerObject::from_obj(o.content.clone());
                if b != o || o != b {
                    return Err(format!("from_obj of the content is another object: {:?}", b.header));
                }
                if let BerObjectContent::Integer(s) = o.content {
                    if BerObject::from_int_slice(s) != o {
                        return Err("from_int_slice of the content is another object".into());
                    }
                }
            }
            let small = i.len() < 16 && i.len() != 3;
            c17_obj(w, &o, small)
        }
        Err(_) => {
            w.refused += 1;
            Ok(())
        }
    });
    let objs = built(ctx.pick(3, 4), &(0..40).chain([126, 127, 128, 255, 256, 1000]).collect::<Vec<_>>());
    explore_built(ctx, "constructed-objects", &objs, c17_built);
}

// ------------------------------------------------------------------ C18
fn hexs(b: &[u8]) -> String {
    format!("[{}]", b.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join(" "))
}
fn head_text(h: &Header) -> String {
    let plus = if h.constructed() { "+" } else { "" };
    let len = match h.length() {
        Length::Definite(n) => n.to_string(),
        Length::Indefinite => "Indefinite".to_string(),
    };
    let t = match h.class() {
        Class::Universal => format!("{}", h.tag()),
        Class::ContextSpecific => h.tag().0.to_string(),
        Class::Application => format!("APPLICATION {}", h.tag().0),
        Class::Private => format!("PRIVATE {}", h.tag().0),
    };
    format!("[{}]{} {} ", t, plus, len)
}
/// The expected text, line breaks left out
fn text(o: &BerObject, indent: usize, inc: usize, rec: bool, hdr: bool) -> String {
    use BerObjectContent::*;
    let mut s = " ".repeat(indent);
    if hdr {
        s += &head_text(&o.header);
    }
    s += &match &o.content {
        EndOfContent => "EndOfContent".to_string(),
        Boolean(b) => format!("Boolean({})", b),
        Integer(v) => format!("Integer({})", hexs(v)),
        Enum(v) => format!("Enum({})", v),
        OID(v) => format!("OID({:?})", v),
        RelativeOID(v) => format!("RelativeOID({:?})", v),
        Null => "Null".to_string(),
        OctetString(v) => format!("OctetString({})", hexs(v)),
        BitString(u, v) => format!("BitString({},{})", u, hexs(v.data)),
        GeneralizedTime(t) => format!("GeneralizedTime(\"{}\")", t),
        UTCTime(t) => format!("UTCTime(\"{}\")", t),
        VisibleString(v) => format!("VisibleString(\"{}\")", v),
        GeneralString(v) => format!("GeneralString(\"{}\")", v),
        GraphicString(v) => format!("GraphicString(\"{}\")", v),
        PrintableString(v) => format!("PrintableString(\"{}\")", v),
        NumericString(v) => format!("NumericString(\"{}\")", v),
        UTF8String(v) => format!("UTF8String(\"{}\")", v),
        IA5String(v) => format!("IA5String(\"{}\")", v),
        ObjectDescriptor(v) => format!("ObjectDescriptor(\"{}\")", v),
        T61String(v) => format!("T61String({})", v),
        VideotexString(v) => format!("VideotexString({})", v),
        BmpString(v) => {
            let u: Vec<u16> = v.chunks_exact(2).map(|a| (a[0] as u16) << 8 | a[1] as u16).collect();
            match String::from_utf16(&u) {
                Ok(t) => format!("BmpString(\"{}\")", t),
                Err(_) => "BmpString(".into(),
            }
        }
        UniversalString(v) => {
            let u: Option<String> = v.chunks_exact(4).map(|a| char::from_u32((a[0] as u32) << 24 | (a[1] as u32) << 16 | (a[2] as u32) << 8 | a[3] as u32)).collect();
            match u {
                Some(t) => format!("UniversalString(\"{}\")", t),
                None => format!("UniversalString({:?}) <error decoding utf32 string>", v),
            }
        }
        Optional(None) => "NONE".to_string(),
        Optional(Some(o)) => format!("OPTION {:?}", o),
        Tagged(c, t, o) => {
            let c = ["UNIVERSAL", "APPLICATION", "CONTEXT-SPECIFIC", "PRIVATE"][class_u8(*c) as usize];
            format!("ContextSpecific [{} {}] {{{}{}}}", c, t.0, text(o, indent + inc, inc, rec, hdr), " ".repeat(indent))
        }
        Sequence(v) | Set(v) => {
            let n = if matches!(o.content, Sequence(_)) { "Sequence" } else { "Set" };
            if rec {
                let mut t = format!("{}[", n);
                for k in v {
                    t += &text(k, indent + inc, inc, rec, hdr);
                }
                t += &" ".repeat(indent);
                t + "]"
            } else {
                n.to_string()
            }
        }
        Unknown(a) => format!("Unknown {}", hexs(a.data)),
    };
    s
}
fn flat(s: String) -> String {
    if s.contains('\n') {
        s.replace('\n', "")
    } else {
        s
    }
}
fn c18_obj(w: &mut Worker, o: &BerObject, indents: &[(usize, usize)]) -> Result<(), String> {
    use PrettyPrinterFlag::*;
    w.compared += 1;
    for &(i, n) in indents {
        for rec in [true, false] {
            for hdr in [false, true] {
                let want = flat(text(o, i, n, rec, hdr));
                let check = |how: &str, p: &PrettyBer| -> Result<(), String> {
                    if p.is_flag_set(Recursive) != rec || p.is_flag_set(ShowHeader) != hdr {
                        return Err(format!("{}: flags", how));
                    }
                    let s = flat(format!("{:?}", p));
                    if s != want {
                        return Err(format!("{} indent {} by {} recursive {} header {}: printed {:.400?}, expected {:.400?}", how, i, n, rec, hdr, s, want));
                    }
                    Ok(())
                };
                w.calls += 2;
                let mut p = o.as_pretty(i, n);
                if !rec {
                    p.unset_flag(Recursive);
                }
                if hdr {
                    p.set_flag(ShowHeader);
                }
                check("as_pretty", &p)?;
                if i == 0 && n == 2 {
                    let mut f = vec![];
                    if hdr {
                        f.push(ShowHeader);
                    }
                    if rec {
                        f.push(Recursive);
                    }
                    check("new", &PrettyBer::new(o, f, i, n))?;
                    // setting twice, unsetting
                    p.set_flag(Recursive);
                    p.set_flag(Recursive);
                    p.set_flag(ShowHeader);
                    p.set_flag(ShowHeader);
                    if !rec {
                        p.unset_flag(Recursive);
                    }
                    if !hdr {
                        p.unset_flag(ShowHeader);
                        p.unset_flag(ShowHeader);
                    }
                    check("flags set and unset", &p)?;
                    // what a child is printed with
                    let x = p.next_indent(o);
                    let s = flat(format!("{:?}", x));
                    if s != flat(text(o, i + n, n, rec, hdr)) {
                        return Err(format!("next_indent: {:.300}", s));
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn c18(ctx: &Ctx) {
    let sp = standard(ctx, 2);
    explore(ctx, &sp, |w, i| match parse_ber(i) {
        Ok((_, o)) => {
            w.accepted += 1;
            c18_obj(w, &o, if i.len() > 2000 { &[(1, 3)] } else { &[(0, 2), (3, 1)] })
        }
        Err(_) => {
            w.refused += 1;
            Ok(())
        }
    });
    let mut more = vec![string_positions(false)];
    more.extend(crate::p_value::time_spaces());
    explore(ctx, &more, |w, i| match parse_ber(i) {
        Ok((_, o)) => c18_obj(w, &o, &[(0, 2)]),
        Err(_) => Ok(()),
    });
    // Universal and BMP strings, valid and not
    let us = Space::new("wide-characters", 256, |sh, e| {
        for lo in 0..=255u8 {
            if !e(&tlv(0, false, 30, &[sh as u8, lo])) || !e(&tlv(0, false, 30, &[0, 0x41, sh as u8, lo, 0xdc, 0x00])) || !e(&tlv(0, false, 28, &[0, 0, sh as u8, lo])) {
                return;
            }
            if !e(&tlv(0, false, 28, &[0, sh as u8, lo, 0x41])) || !e(&tlv(0, false, 28, &[0, 0, 0, 0x42, sh as u8, 0, 0, lo])) {
                return;
            }
        }
        for n in 0..16 {
            e(&tlv(0, false, 28, &vec![sh as u8; n]));
        }
    });
    explore(ctx, &[us], |w, i| match parse_ber(i) {
        Ok((_, o)) => c18_obj(w, &o, &[(0, 2)]),
        Err(_) => Ok(()),
    });
    let mut ind = vec![];
    for i in [0usize, 1, 2, 3, 8, 40] {
        for n in [0usize, 1, 2, 4, 7] {
            ind.push((i, n));
        }
    }
    let objs = built(ctx.pick(3, 4), &[0, 1, 2, 3, 4, 8, 16, 130]);
    explore_built(ctx, "constructed-objects", &objs, |w, o| c18_obj(w, o, &ind));
}
