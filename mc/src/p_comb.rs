//! C11 sequence-of / set-of, C12 containers, C13 tagging, C19 no memory.
use crate::cmp::*;
use crate::entry::*;
use crate::model::{self, Len};
use crate::runner::*;
use crate::spaces::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use der_parser::nom;
use nom::error::{ErrorKind, ParseError};
use std::cell::RefCell;

/// A user-defined error type
#[derive(Debug, Clone, PartialEq)]
pub enum MyErr {
    Ber(BerError),
    Custom(u32),
    Nom(ErrorKind),
}
impl From<BerError> for MyErr {
    fn from(e: BerError) -> Self {
        MyErr::Ber(e)
    }
}
impl<'a> ParseError<&'a [u8]> for MyErr {
    fn from_error_kind(_: &'a [u8], k: ErrorKind) -> Self {
        MyErr::Nom(k)
    }
    fn append(_: &'a [u8], _: ErrorKind, other: Self) -> Self {
        other
    }
}
type RM<'a, T> = nom::IResult<&'a [u8], T, MyErr>;

/// Extent of the element under the encoding rules
fn frame(i: &[u8], der: bool) -> Result<(model::Hdr, usize, usize, usize), model::No> {
    if der && matches!(model::header(i)?.len, Len::Indef) {
        return Err(model::No::Bad);
    }
    model::frame(i)
}

// ------------------------------------------------------------------ C11
/// The whole content as a list of items, by the definition
fn items_of<'a, T, E>(mut c: &'a [u8], f: impl Fn(&'a [u8]) -> nom::IResult<&'a [u8], T, E>) -> Option<Vec<T>> {
    let mut v = vec![];
    while !c.is_empty() {
        match f(c) {
            Ok((r, x)) if r.len() < c.len() => {
                v.push(x);
                c = r;
            }
            _ => return None,
        }
    }
    Some(v)
}

/// compare one list parser against the definition
fn c11_list<T: std::fmt::Debug, E: std::fmt::Debug>(
    i: &[u8],
    what: &str,
    tag: u32,
    der: bool,
    r: nom::IResult<&[u8], Vec<T>, E>,
    same: impl Fn(&T, &T) -> bool,
    want: impl Fn(&'static [u8]) -> Option<Vec<T>>,
) -> Result<(), String> {
    let fr = frame(i, der);
    if matches!(fr, Err(model::No::Unspec)) {
        return Ok(());
    }
    match (&fr, r) {
        (Ok((h, cs, ce, end)), r) if h.tag == tag => {
            // class other than universal, primitive form: may be refused
            let must = h.class == 0 && h.cons;
            // the definition works on a copy that lives as long as it needs
            let content: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(&i[*cs..*ce]) };
            match (r, want(content)) {
                (Ok((rem, v)), Some(w)) => {
                    rem_is(i, rem, *end).map_err(|e| format!("{}: {}", what, e))?;
                    if v.len() != w.len() || !v.iter().zip(&w).all(|(a, b)| same(a, b)) {
                        return Err(format!("{}: list {:.300?}, expected {:.300?}", what, v, w));
                    }
                    Ok(())
                }
                (Ok((_, v)), None) => Err(format!("{}: a partial or wrong list was returned: {:.300?}", what, v)),
                (Err(e), Some(w)) if must => Err(format!("{}: refused ({:?}) a list of {} valid items", what, e, w.len())),
                _ => Ok(()),
            }
        }
        (_, Ok((_, v))) => Err(format!("{}: accepted {:.200?} from something that is not such an element", what, v)),
        _ => Ok(()),
    }
}

fn raw_item<'a>(n: usize, stop: Option<(u8, u8)>) -> impl Fn(&'a [u8]) -> RM<'a, &'a [u8]> + Copy {
    // consumes n octets; an item starting with the stop octet is refused in one of three ways.
    // Like parsers made of nom's complete combinators, it calls a missing octet an error, or
    // (n == 2) incomplete
    move |i: &'a [u8]| {
        if i.len() < n || i.is_empty() {
            return Err(if n == 2 { nom::Err::Incomplete(nom::Needed::new(n - i.len())) } else { nom::Err::Error(MyErr::Nom(ErrorKind::Eof)) });
        }
        if let Some((s, how)) = stop {
            if i[0] == s {
                return Err(match how {
                    0 => nom::Err::Error(MyErr::Custom(7)),
                    1 => nom::Err::Failure(MyErr::Custom(8)),
                    _ => nom::Err::Incomplete(nom::Needed::Unknown),
                });
            }
        }
        Ok((&i[n..], &i[..n]))
    }
}

fn c11_case(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    let oeq = |a: &BerObject, b: &BerObject| deep_eq(a, b);
    // object items, by the generic and the type-specific parsers
    let items: [(&str, P, bool); 6] = [
        ("parse_ber", parse_ber, false),
        ("parse_der", parse_der, true),
        ("parse_ber_integer", parse_ber_integer, false),
        ("parse_der_integer", parse_der_integer, true),
        ("parse_ber_octetstring", parse_ber_octetstring, false),
        ("parse_ber_sequence", parse_ber_sequence, false),
    ];
    for (name, p, _) in items {
        let lists: [(&str, u32, bool, R<Vec<BerObject>>); 4] = [
            ("parse_ber_sequence_of_v", 16, false, parse_ber_sequence_of_v(p)(i)),
            ("parse_ber_set_of_v", 17, false, parse_ber_set_of_v(p)(i)),
            ("parse_der_sequence_of_v", 16, true, parse_der_sequence_of_v(p)(i)),
            ("parse_der_set_of_v", 17, true, parse_der_set_of_v(p)(i)),
        ];
        for (n, tag, der, r) in lists {
            c11_list(i, &format!("{}({})", n, name), tag, der, r, oeq, |c| items_of(c, p))?;
        }
        let objs: [(&str, u32, bool, R); 4] = [
            ("parse_ber_sequence_of", 16, false, parse_ber_sequence_of(p)(i)),
            ("parse_ber_set_of", 17, false, parse_ber_set_of(p)(i)),
            ("parse_der_sequence_of", 16, true, parse_der_sequence_of(p)(i)),
            ("parse_der_set_of", 17, true, parse_der_set_of(p)(i)),
        ];
        for (n, tag, der, r) in objs {
            let r = match r {
                Ok((rem, o)) => {
                    if o.class() != Class::Universal || o.tag().0 != tag || !o.is_constructed() {
                        return Err(format!("{}: header {:?}", n, o.header));
                    }
                    match o.content {
                        BerObjectContent::Sequence(v) if tag == 16 => Ok((rem, v)),
                        BerObjectContent::Set(v) if tag == 17 => Ok((rem, v)),
                        c => return Err(format!("{}: content {:.200?}", n, c)),
                    }
                }
                Err(e) => Err(e),
            };
            c11_list(i, &format!("{}({})", n, name), tag, der, r, oeq, |c| items_of(c, p))?;
        }
        w.calls += 8;
        w.compared += 8;
    }
    // typed values
    c11_list(i, "parse_ber_sequence_of_v(parse_ber_u32)", 16, false, parse_ber_sequence_of_v(parse_ber_u32)(i), |a, b| a == b, |c| items_of(c, parse_ber_u32))?;
    c11_list(i, "parse_der_set_of_v(parse_der_i64)", 17, true, parse_der_set_of_v(parse_der_i64)(i), |a, b| a == b, |c| items_of(c, parse_der_i64))?;
    // octet items with a user-defined error type, refusing one octet value in every way
    let stops: [Option<(u8, u8)>; 4] = [None, Some((0x05, 0)), Some((0x05, 1)), Some((0x05, 2))];
    for n in [0usize, 1, 2, 3] {
        for stop in stops {
            let f = raw_item(n, stop);
            let lists: [(&str, u32, bool, RM<Vec<&[u8]>>); 4] = [
                ("parse_ber_sequence_of_v", 16, false, parse_ber_sequence_of_v(f)(i)),
                ("parse_ber_set_of_v", 17, false, parse_ber_set_of_v(f)(i)),
                ("parse_der_sequence_of_v", 16, true, parse_der_sequence_of_v(f)(i)),
                ("parse_der_set_of_v", 17, true, parse_der_set_of_v(f)(i)),
            ];
            for (name, tag, der, r) in lists {
                let what = format!("{}({} octets per item, refusing {:?})", name, n, stop);
                c11_list(i, &what, tag, der, r, |a, b| a == b, |c| items_of(c, raw_item(n, stop)))?;
            }
            w.calls += 4;
            w.compared += 4;
        }
    }
    // nested lists
    c11_list(
        i,
        "parse_ber_sequence_of_v(parse_ber_set_of_v(parse_ber_u32))",
        16,
        false,
        parse_ber_sequence_of_v(|x| parse_ber_set_of_v(parse_ber_u32)(x))(i),
        |a, b| a == b,
        |c| items_of(c, |x| parse_ber_set_of_v(parse_ber_u32)(x)),
    )?;
    w.calls += 3;
    match frame(i, false) {
        Ok(_) => w.accepted += 1,
        Err(_) => w.refused += 1,
    }
    Ok(())
}

fn lists_space(th: bool) -> Vec<Space> {
    // every list of up to n items over an alphabet of items (good, other type, refused,
    // truncated), in every container shape, plain and with octets left over
    let items: Vec<Vec<u8>> = vec![
        vec![2, 1, 5],
        vec![2, 2, 1, 0],
        vec![2, 2, 0, 1],
        vec![5, 0],
        vec![4, 2, 0, 0],
        vec![0x30, 0x03, 2, 1, 9],
        vec![0x31, 0x80, 2, 1, 9, 0, 0],
        vec![1, 2, 0, 0],
        vec![2, 1],
        vec![2],
    ];
    let n = if th { 5 } else { 4 };
    let k = items.len();
    vec![Space::new("item-lists", k * k, move |sh, e| {
        for len in 0..=n {
            let free = len.max(2) - 2;
            for code in 0..k.pow(free as u32) {
                let mut idx = vec![sh / k, sh % k];
                let mut c = code;
                for _ in 0..free {
                    idx.push(c % k);
                    c /= k;
                }
                if len < 2 && sh / k != 0 || len < 1 && sh != 0 {
                    continue;
                }
                if len == 1 {
                    idx = vec![sh % k];
                }
                idx.truncate(len);
                let body: Vec<u8> = idx.iter().flat_map(|x| items[*x].clone()).collect();
                for (cl, t, f) in [(0u8, 16u32, 0usize), (0, 17, 0), (0, 16, 10), (0, 17, 10), (0, 16, 2), (2, 16, 0)] {
                    let x = tlv_form(cl, true, t, &body, f);
                    if !e(&x) {
                        return;
                    }
                    if len <= 2 {
                        // followed by another element; primitive; truncated by one
                        let mut y = x.clone();
                        y.extend_from_slice(&[2, 1, 1]);
                        if !e(&y) || !e(&tlv(cl, false, t, &body)) || !e(&x[..x.len() - 1]) {
                            return;
                        }
                    }
                }
            }
        }
    })]
}

pub fn c11(ctx: &Ctx) {
    let th = ctx.thorough();
    explore(ctx, &lists_space(th), c11_case);
    let mut v = vec![bytes_full(0), bytes_full(1), bytes_full(2)];
    // sequence or set header with every content of up to 2 octets
    v.push(Space::new("list-contents-2", 2 * 256, |sh, e| {
        let t = 0x30 + (sh % 2) as u8;
        let a = (sh / 2) as u8;
        e(&[t, 1, a]);
        for b in 0..=255u8 {
            if !e(&[t, 2, a, b]) || !e(&[t, 0x80, a, b, 0, 0]) {
                return;
            }
        }
    }));
    for n in 3..=ctx.pick(5, 6) {
        v.push(bytes_over("structural-octets", ALPHA, n).wrapc());
    }
    v.push(bytes_over("nesting-octets", ALPHA_EOC, ctx.pick(6, 7)));
    v.push(widths(ctx.pick(130, 300), &[255, 256, 257, 1000, 4096]));
    v.push(length_sweep(140, false, true));
    let mut it = one_of_each();
    it.extend(bad_elements());
    v.push(placed_w(it, "every-type", true));
    v.push(chains_w(54, true, true));
    // very long lists, good to the end or with the last item spoilt
    const MANY: [usize; 9] = [16384, 32767, 32768, 65534, 65535, 65536, 65537, 100_000, 131_072];
    v.push(Space::new("very-long-lists", MANY.len() * 4, |sh, e| {
        let n = MANY[sh / 4];
        let (t, f) = ([16u32, 17][sh % 2], [0usize, 10][sh / 2 % 2]);
        for kid in [&[5u8, 0][..], &[2, 1, 7]] {
            let c = kid.repeat(n);
            if !e(&tlv_form(0, true, t, &c, f)) {
                return;
            }
            let mut d = c.clone();
            d.extend_from_slice(&[1, 0]);
            if !e(&tlv_form(0, true, t, &d, f)) {
                return;
            }
        }
    }));
    explore(ctx, &v, c11_case);
}

trait WrapC {
    fn wrapc(self) -> Space;
}
impl WrapC for Space {
    /// each string of the space as the content of a SEQUENCE
    fn wrapc(self) -> Space {
        let shards = self.shards;
        Space::new(format!("{}-as-content", self.name), shards, move |sh, e| {
            self.each(sh, &mut |c| {
                if c[0] % 2 == 0 {
                    e(&tlv(0, true, 16, c))
                } else {
                    e(&tlv_form(0, true, 17, c, 0))
                }
            })
        })
    }
}

// ------------------------------------------------------------------ C12
/// What the scripted callback does
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// consume this many octets (at most all), return a value
    Take(usize),
    All,
    Error(u32),
    Failure(u32),
    Inc(usize),
    IncUnknown,
}
const ACTS: [Act; 8] = [Act::Take(0), Act::Take(1), Act::Take(2), Act::All, Act::Error(3), Act::Failure(4), Act::Inc(5), Act::IncUnknown];

struct Seen<'a> {
    calls: Vec<(&'a [u8], Header<'a>)>,
}

fn act<'a>(a: Act, c: &'a [u8]) -> RM<'a, u32> {
    match a {
        Act::Take(n) => Ok((&c[n.min(c.len())..], 1000 + n as u32)),
        Act::All => Ok((&c[c.len()..], 999)),
        Act::Error(n) => Err(nom::Err::Error(MyErr::Custom(n))),
        Act::Failure(n) => Err(nom::Err::Failure(MyErr::Custom(n))),
        Act::Inc(n) => Err(nom::Err::Incomplete(nom::Needed::new(n))),
        Act::IncUnknown => Err(nom::Err::Incomplete(nom::Needed::Unknown)),
    }
}

/// `must`: the callback has to be called; `may`: it may be
fn c12_judge<'a>(
    i: &'a [u8],
    what: &str,
    a: Act,
    der: bool,
    may: impl Fn(&model::Hdr) -> bool,
    must: impl Fn(&model::Hdr) -> bool,
    lenfree: bool,
    seen: Seen<'a>,
    r: RM<'a, u32>,
) -> Result<(), String> {
    let fr = frame(i, der);
    if matches!(fr, Err(model::No::Unspec)) {
        return Ok(());
    }
    let e = |m: String| Err(format!("{} ({:?}): {}", what, a, m));
    if seen.calls.len() > 1 {
        return e(format!("callback called {} times", seen.calls.len()));
    }
    match &fr {
        Ok((h, cs, ce, end)) if may(h) => {
            if seen.calls.is_empty() {
                if must(h) || r.is_ok() {
                    return e("callback not called".into());
                }
                return Ok(());
            }
            let (c, hd) = &seen.calls[0];
            same_slice(i, c, *cs, *ce).map_err(|m| format!("{} ({:?}): callback input: {}", what, a, m))?;
            // (a callback that reads content as a type may be given the length as known)
            let mut hh = *h;
            if lenfree && h.len == Len::Indef && hd.length() != Length::Indefinite {
                hh.len = Len::Def((ce - cs) as u64);
            }
            cmp_header(i, hd, &hh, 0).map_err(|m| format!("{} ({:?}): callback header: {}", what, a, m))?;
            match (act(a, c), r) {
                (Ok((_, v)), Ok((rem, x))) => {
                    if v != x {
                        return e(format!("value {} instead of {}", x, v));
                    }
                    rem_is(i, rem, *end).map_err(|m| format!("{} ({:?}): {}", what, a, m))
                }
                (Err(x), Err(y)) => {
                    if x != y {
                        return e(format!("callback error {:?} became {:?}", x, y));
                    }
                    Ok(())
                }
                (x, y) => e(format!("callback gave {:?}, parser {:?}", x, y)),
            }
        }
        _ => {
            if !seen.calls.is_empty() {
                return e("callback called on an incomplete, malformed or unexpected element".into());
            }
            if r.is_ok() {
                return e("accepted".into());
            }
            Ok(())
        }
    }
}

fn c12_case(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    let any = |_: &model::Hdr| true;
    let seq = |h: &model::Hdr| h.tag == 16;
    let set = |h: &model::Hdr| h.tag == 17;
    let useq = |h: &model::Hdr| h.tag == 16 && h.class == 0 && h.cons;
    let uset = |h: &model::Hdr| h.tag == 17 && h.class == 0 && h.cons;
    let ucons = |h: &model::Hdr| h.cons;
    for a in ACTS {
        macro_rules! go {
            ($name:ident, $der:expr, $may:expr, $must:expr) => {{
                let seen = RefCell::new(Seen { calls: vec![] });
                let r = $name(|c, h| {
                    seen.borrow_mut().calls.push((c, h));
                    act(a, c)
                })(i);
                c12_judge(i, stringify!($name), a, $der, $may, $must, false, seen.into_inner(), r)?;
                w.calls += 1;
                w.compared += 1;
            }};
        }
        go!(parse_ber_container, false, any, ucons);
        go!(parse_der_container, true, any, ucons);
        go!(parse_ber_sequence_defined_g, false, seq, useq);
        go!(parse_der_sequence_defined_g, true, seq, useq);
        go!(parse_ber_set_defined_g, false, set, uset);
        go!(parse_der_set_defined_g, true, set, uset);
    }
    // the variants that build an object from the callback's list
    let list_acts: [(usize, Option<u8>); 6] = [(0, None), (1, None), (usize::MAX, None), (0, Some(0)), (0, Some(1)), (0, Some(2))];
    for (take, fail) in list_acts {
        let cb = |n: &RefCell<Vec<&[u8]>>, c: &'static [u8]| -> R<'static, Vec<BerObject<'static>>> {
            n.borrow_mut().push(c);
            match fail {
                Some(0) => Err(nom::Err::Error(BerError::InvalidTag)),
                Some(1) => Err(nom::Err::Failure(BerError::InvalidDateTime)),
                Some(_) => Err(nom::Err::Incomplete(nom::Needed::new(3))),
                None => Ok((
                    &c[take.min(c.len())..],
                    vec![BerObject::from_obj(BerObjectContent::Null), BerObject::from_obj(BerObjectContent::OctetString(c))],
                )),
            }
        };
        let st: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(i) };
        macro_rules! go {
            ($name:ident, $tag:expr, $der:expr) => {{
                let n = RefCell::new(vec![]);
                let r: R = $name(|c| cb(&n, c))(st);
                let n = n.into_inner();
                let what = stringify!($name);
                let fr = frame(i, $der);
                let ok = matches!(&fr, Ok((h, ..)) if h.tag == $tag);
                if !matches!(fr, Err(model::No::Unspec)) {
                    if n.len() > 1 || (!ok && !n.is_empty()) {
                        return Err(format!("{}: callback called {} times", what, n.len()));
                    }
                    match (&fr, &r) {
                        (Ok((h, cs, ce, end)), r) if ok => {
                            let must = h.class == 0 && h.cons;
                            if n.is_empty() {
                                if must || r.is_ok() {
                                    return Err(format!("{}: callback not called", what));
                                }
                            } else {
                                same_slice(i, n[0], *cs, *ce).map_err(|m| format!("{}: callback input: {}", what, m))?;
                                match (fail, r) {
                                    (None, Ok((rem, o))) => {
                                        rem_is(i, rem, *end).map_err(|m| format!("{}: {}", what, m))?;
                                        let l = match &o.content {
                                            BerObjectContent::Sequence(l) if $tag == 16 => l,
                                            BerObjectContent::Set(l) if $tag == 17 => l,
                                            c => return Err(format!("{}: content {:?}", what, c)),
                                        };
                                        if l.len() != 2 || l[0].content != BerObjectContent::Null || l[1].as_slice() != Ok(n[0])
                                            || o.tag().0 != $tag || !o.is_constructed() || o.class() != Class::Universal {
                                            return Err(format!("{}: object {:.200?}", what, o));
                                        }
                                    }
                                    (Some(0), Err(nom::Err::Error(BerError::InvalidTag))) => (),
                                    (Some(1), Err(nom::Err::Failure(BerError::InvalidDateTime))) => (),
                                    (Some(2), Err(nom::Err::Incomplete(x))) if *x == nom::Needed::new(3) => (),
                                    (f, r) => return Err(format!("{}: callback outcome {:?} became {:.200?}", what, f, r)),
                                }
                            }
                        }
                        (_, Ok(_)) => return Err(format!("{}: accepted", what)),
                        _ => (),
                    }
                }
                w.calls += 1;
                w.compared += 1;
            }};
        }
        go!(parse_ber_sequence_defined, 16, false);
        go!(parse_der_sequence_defined, 16, true);
        go!(parse_ber_set_defined, 17, false);
        go!(parse_der_set_defined, 17, true);
    }
    // callbacks that parse: all of the content; the first child only; a nested container
    let a: RM<Vec<u32>> = parse_ber_container(|c, _| {
        let mut v = vec![];
        let mut c: &[u8] = c;
        while !c.is_empty() {
            let (r, x) = parse_ber_u32(c).map_err(nom::Err::convert)?;
            v.push(x);
            c = r;
        }
        Ok((c, v))
    })(i);
    match (frame(i, false), a) {
        (Ok((_, _, _, end)), Ok((rem, _))) => rem_is(i, rem, end).map_err(|m| format!("parse_ber_container: {}", m))?,
        (Err(model::No::Unspec), _) => (),
        (Err(_), Ok(_)) => return Err("parse_ber_container accepted".into()),
        _ => (),
    }
    match frame(i, false) {
        Ok(_) => w.accepted += 1,
        Err(_) => w.refused += 1,
    }
    Ok(())
}

fn comb_spaces(ctx: &Ctx) -> Vec<Space> {
    let mut v = vec![bytes_full(0), bytes_full(1), bytes_full(2)];
    v.push(tlv_one());
    if ctx.thorough() {
        v.push(bytes_full(3));
    }
    for n in 3..=ctx.pick(4, 5) {
        v.push(bytes_over("structural-octets", ALPHA, n));
    }
    for n in 5..=ctx.pick(6, 7) {
        v.push(bytes_over("nesting-octets", ALPHA_EOC, n));
    }
    v.push(length_sweep(ctx.pick(140, 300), false, true));
    v.push(declared_lengths());
    v.push(tags(ctx.pick(300, 20000)));
    v.push(chains_w(60, true, true));
    v.push(widths(ctx.pick(45, 150), &[85, 86, 127, 128, 129, 255, 256, 257, 1000, 4096]));
    let mut it = one_of_each();
    it.extend(bad_elements());
    v.push(placed_w(it, "every-type", true));
    let mut lv = leaves_good();
    lv.extend(leaves_tricky());
    let t = std::sync::Arc::new(Trees::new(lv, SHAPES.to_vec(), 2));
    for n in 1..=3 {
        v.push(trees_space("trees", t.clone(), n));
    }
    v.push(edits("types", one_of_each(), true));
    v.push(edits("trees", t.elems(2).to_vec(), true));
    v
}

pub fn c12(ctx: &Ctx) {
    explore(ctx, &comb_spaces(ctx), c12_case);
}

// ------------------------------------------------------------------ C13
fn c13_case(w: &mut Worker, i: &[u8], quick_inner: bool) -> Result<(), String> {
    let own = tags_for(i)[0];
    let h0 = model::header(i);
    if matches!(h0, Err(model::No::Unspec)) {
        return Ok(());
    }
    let others = [own, own ^ 1, own.wrapping_add(32), 0];
    let inner: [(&str, P); 5] = [
        ("parse_ber", parse_ber),
        ("parse_der", parse_der),
        ("parse_ber_integer", parse_ber_integer),
        ("parse_der_octetstring", parse_der_octetstring),
        ("parse_ber_sequence", parse_ber_sequence),
    ];
    for (k, &t) in others.iter().enumerate() {
        if k > 0 && t == own {
            continue;
        }
        let tag = Tag(t);
        for der in [false, true] {
            let fr = frame(i, der);
            for (name, p) in inner {
                // the definition of explicit tagging
                let want: Option<(BerObject, usize)> = match &fr {
                    Ok((h, cs, ce, end)) if h.class != 0 && h.cons && h.tag == t => p(&i[*cs..*ce]).ok().map(|(_, o)| (o, *end)),
                    _ => None,
                };
                let what = |f: &str| format!("{}_{}({}, {})", if der { "der" } else { "ber" }, f, t, name);
                let cmp_tagged = |what: &str, o: &BerObject, inner: &BerObject| -> Result<(), String> {
                    let h = &fr.as_ref().unwrap().0;
                    cmp_header(i, &o.header, h, 0).map_err(|e| format!("{}: {}", what, e))?;
                    match &o.content {
                        BerObjectContent::Tagged(c, tg, b) if class_u8(*c) == h.class && tg.0 == t && deep_eq(b, inner) => (),
                        c => return Err(format!("{}: content {:.200?}", what, c)),
                    }
                    match o.as_tagged() {
                        Ok((c, tg, b)) if class_u8(c) == h.class && tg.0 == t && deep_eq(b, inner) => Ok(()),
                        _ => Err(format!("{}: as_tagged differs", what)),
                    }
                };
                let r = if der { parse_der_tagged_explicit(tag, p)(i) } else { parse_ber_tagged_explicit(tag, p)(i) };
                match (&r, &want) {
                    (Ok((rem, o)), Some((x, end))) => {
                        rem_is(i, rem, *end).map_err(|e| format!("{}: {}", what("explicit"), e))?;
                        cmp_tagged(&what("explicit"), o, x)?;
                    }
                    (Ok((_, o)), None) => return Err(format!("{}: accepted {:.200?}", what("explicit"), o)),
                    (Err(e), Some(_)) => return Err(format!("{}: refused {:?}", what("explicit"), e)),
                    _ => (),
                }
                // the variant with a callback
                let g: RM<(u8, BerObject)> = if der {
                    parse_der_tagged_explicit_g(tag, |c, h: Header| {
                        let (r, o) = p(c).map_err(nom::Err::convert)?;
                        Ok((r, (class_u8(h.class()), o)))
                    })(i)
                } else {
                    parse_ber_tagged_explicit_g(tag, |c, h: Header| {
                        let (r, o) = p(c).map_err(nom::Err::convert)?;
                        Ok((r, (class_u8(h.class()), o)))
                    })(i)
                };
                match (&g, &want) {
                    (Ok((rem, (c, o))), Some((x, end))) => {
                        rem_is(i, rem, *end).map_err(|e| format!("{}: {}", what("explicit_g"), e))?;
                        if *c != fr.as_ref().unwrap().0.class || !deep_eq(o, x) {
                            return Err(format!("{}: other object", what("explicit_g")));
                        }
                    }
                    (Ok(_), None) => return Err(format!("{}: accepted", what("explicit_g"))),
                    (Err(e), Some(_)) => return Err(format!("{}: refused {:?}", what("explicit_g"), e)),
                    _ => (),
                }
                // optional
                let o = match name {
                    // (the optional variants want a parser of any lifetime)
                    _ if der => parse_der_explicit_optional(i, tag, p),
                    _ => parse_ber_explicit_optional(i, tag, p),
                };
                match (&o, &want) {
                    (Ok((rem, o)), Some((x, end))) => {
                        rem_is(i, rem, *end).map_err(|e| format!("{}: {}", what("explicit_optional"), e))?;
                        match (&o.content, o.as_optional()) {
                            (BerObjectContent::Optional(Some(b)), Ok(Some(b2))) if deep_eq(b, b2) && header_eq(&o.header, &b.header) => {
                                cmp_tagged(&what("explicit_optional"), b, x)?
                            }
                            _ => return Err(format!("{}: {:.200?}", what("explicit_optional"), o)),
                        }
                    }
                    (Ok((rem, o)), None) => {
                        rem_is(i, rem, 0).map_err(|e| format!("{}: absent, but {}", what("explicit_optional"), e))?;
                        if !matches!(o.content, BerObjectContent::Optional(None)) || o.as_optional() != Ok(None) {
                            return Err(format!("{}: absent, but {:.200?}", what("explicit_optional"), o));
                        }
                    }
                    (Err(e), _) => return Err(format!("{}: failed: {:?}", what("explicit_optional"), e)),
                }
                w.calls += 3;
                w.compared += 3;
            }
            // relay of the callback's outcome through the tagged parsers
            if k == 0 {
                for a in ACTS {
                    let nu = |h: &model::Hdr| h.class != 0 && h.cons && h.tag == t;
                    let tg = |h: &model::Hdr| h.tag == t;
                    let seen = RefCell::new(Seen { calls: vec![] });
                    let cb = |c, h| {
                        seen.borrow_mut().calls.push((c, h));
                        act(a, c)
                    };
                    let r = if der { parse_der_tagged_explicit_g(tag, cb)(i) } else { parse_ber_tagged_explicit_g(tag, cb)(i) };
                    c12_judge(i, "tagged_explicit_g", a, der, nu, nu, false, seen.into_inner(), r)?;
                    let seen = RefCell::new(Seen { calls: vec![] });
                    let cb = |c, h, d| {
                        seen.borrow_mut().calls.push((c, h));
                        if d == 0 || d > MAX_RECURSION {
                            return Err(nom::Err::Failure(MyErr::Custom(d as u32 + 100)));
                        }
                        act(a, c)
                    };
                    let r = if der { parse_der_tagged_implicit_g(tag, cb)(i) } else { parse_ber_tagged_implicit_g(tag, cb)(i) };
                    c12_judge(i, "tagged_implicit_g", a, der, tg, tg, true, seen.into_inner(), r)?;
                }
                w.calls += 16;
                w.compared += 16;
            }
            // implicit: the content decoded as every type, under the original header
            let types: &[u32] = if k > 0 {
                &[2, 16]
            } else if quick_inner {
                &[1, 2, 3, 4, 5, 10, 12, 16, 17, 23, 30]
            } else {
                &[1, 2, 3, 4, 5, 6, 7, 10, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30]
            };
            for &ty in types {
                let want = match &fr {
                    Ok((h, cs, ce, end)) if h.tag == t => {
                        let m = model::decode_content(i, *cs, *ce, 0, h.cons, ty, Len::Def((ce - cs) as u64), der, 50);
                        Some((m, h, *cs, *ce, *end))
                    }
                    _ => None,
                };
                let rs: [(&str, R); 3] = if der {
                    [
                        ("parse_der_implicit", parse_der_implicit(i, tag, parse_der_content(Tag(ty)))),
                        ("parse_der_tagged_implicit", parse_der_tagged_implicit(tag, parse_der_content(Tag(ty)))(i)),
                        (
                            "parse_der_tagged_implicit_g",
                            parse_der_tagged_implicit_g(tag, |c, h: Header, d| {
                                let (r, o) = parse_der_content2(Tag(ty))(c, h.clone(), d)?;
                                Ok((r, BerObject::from_header_and_content(h, o)))
                            })(i),
                        ),
                    ]
                } else {
                    [
                        ("parse_ber_implicit", parse_ber_implicit(i, tag, parse_ber_content(Tag(ty)))),
                        ("parse_ber_tagged_implicit", parse_ber_tagged_implicit(tag, parse_ber_content(Tag(ty)))(i)),
                        (
                            "parse_ber_tagged_implicit_g",
                            parse_ber_tagged_implicit_g(tag, |c, h: Header, d| {
                                let (r, o) = parse_ber_content2(Tag(ty))(c, h.clone(), d)?;
                                Ok((r, BerObject::from_header_and_content(h, o)))
                            })(i),
                        ),
                    ]
                };
                for (name, r) in rs {
                    let what = format!("{}({} as type {})", name, t, ty);
                    match (&r, &want) {
                        (Ok((_, o)), None) => return Err(format!("{}: accepted {:.200?}", what, o)),
                        (Ok((rem, o)), Some((m, h, cs, ce, end))) => {
                            rem_is(i, rem, *end).map_err(|e| format!("{}: {}", what, e))?;
                            let mut hh = **h;
                            if name.ends_with("_g") && h.len == Len::Indef && o.header.length() != Length::Indefinite {
                                hh.len = Len::Def((ce - cs) as u64);
                            }
                            cmp_header(i, &o.header, &hh, 0).map_err(|e| format!("{}: {}", what, e))?;
                            match m {
                                Ok((v, l)) => {
                                    let n = model::Node { h: **h, start: 0, cs: *cs, ce: *ce, end: *end, val: v.clone(), lenient: *l };
                                    cmp_content(i, &o.content, &n, ty, None).map_err(|e| format!("{}: {}", what, e))?;
                                }
                                Err(model::No::Unspec) => (),
                                Err(e) => return Err(format!("{}: accepted {:.200?} ({:?})", what, o, e)),
                            }
                        }
                        (Err(e), Some((Ok((v, false)), ..))) => {
                            // (children may hold elements that may be refused)
                            let lenient = matches!(v, model::Val::List(l) if l.iter().any(|n| n.any_lenient()));
                            if !lenient {
                                return Err(format!("{}: refused: {:?}", what, e));
                            }
                        }
                        _ => (),
                    }
                    w.calls += 1;
                    w.compared += 1;
                }
            }
        }
    }
    // optional around any parser
    for (name, p) in [
        ("parse_ber", parse_ber as P), ("parse_der", parse_der as P), ("parse_ber_integer", parse_ber_integer as P), ("parse_der_sequence", parse_der_sequence as P),
        ("parse_der_bool", parse_der_bool as P), ("parse_ber_null", parse_ber_null as P),
        ("sequence_of", |i| parse_ber_sequence_of(parse_ber_integer)(i)),
        ("set_of", |i| parse_der_set_of(parse_der)(i)),
        ("sequence_defined", |i| parse_der_sequence_defined(many(parse_der))(i)),
        ("container", |i| parse_ber_container(|c: &[u8], h: Header| match c.len() {
            0 => Err(nom::Err::Error(BerError::InvalidTag)),
            1 => Err(nom::Err::Incomplete(nom::Needed::new(3))),
            2 => Err(nom::Err::Failure(BerError::BerValueError)),
            _ => Ok((c, BerObject::from_header_and_content(h, BerObjectContent::OctetString(&c[1..])))),
        })(i)),
        ("explicit", |i| parse_ber_tagged_explicit(1, parse_ber)(i)),
        ("implicit", |i| parse_der_tagged_implicit(1, parse_der_content(Tag::Integer))(i)),
        ("optional", |i| parse_ber_optional(parse_ber_integer)(i)),
        ("explicit_optional", |i| parse_der_explicit_optional(i, Tag(1), parse_der)),
        ("failing", |_| Err(nom::Err::Failure(BerError::BerMaxDepth))),
        ("wanting more", |_| Err(nom::Err::Incomplete(nom::Needed::Unknown))),
        ("nothing", |i| Ok((i, BerObject::from_obj(BerObjectContent::Null)))),
    ] {
        match (parse_ber_optional(p)(i), p(i)) {
            (Ok((rem, o)), Ok((rem2, x))) => {
                if rem.len() != rem2.len() || !header_eq(&o.header, &x.header) {
                    return Err(format!("optional {}: other remainder or header", name));
                }
                match (&o.content, o.as_optional()) {
                    (BerObjectContent::Optional(Some(b)), Ok(Some(c))) if deep_eq(b, &x) && deep_eq(c, &x) => (),
                    _ => return Err(format!("optional {}: {:.200?}", name, o)),
                }
            }
            (Ok((rem, o)), Err(_)) => {
                rem_is(i, rem, 0).map_err(|e| format!("optional {}: absent, but {}", name, e))?;
                if !matches!(o.content, BerObjectContent::Optional(None)) || o.as_optional() != Ok(None) {
                    return Err(format!("optional {}: absent, but {:.200?}", name, o));
                }
            }
            (Err(e), _) => return Err(format!("optional {}: failed: {:?}", name, e)),
        }
        w.calls += 2;
        w.compared += 1;
    }
    match frame(i, false) {
        Ok(_) => w.accepted += 1,
        Err(_) => w.refused += 1,
    }
    Ok(())
}

fn tagged_space() -> Space {
    // every class, flag, a range of tag numbers, length form, around every typed element, alone,
    // followed by octets, and emptied
    let mut inner = one_of_each();
    inner.extend([vec![], vec![2], vec![2, 1], vec![1, 1, 1], vec![2, 2, 0, 1], vec![0x30, 0x80, 5, 0, 0, 0], vec![0x31, 0x80, 0, 0], vec![4, 2, 0, 0], vec![0x80, 0]]);
    let n = inner.len();
    Space::new("tagged-elements", n, move |sh, e| {
        let x = &inner[sh];
        for class in 0..4u8 {
            for cons in [false, true] {
                for tag in [0u32, 1, 2, 3, 4, 5, 7, 15, 16, 17, 29, 30, 31, 32, 127, 128, 16383, 16384, 2097151, 1 << 28, u32::MAX] {
                    for form in [0usize, 1, 2, 10] {
                        if form == 10 && !cons {
                            continue;
                        }
                        for tail in [&[][..], &[0u8][..], &[5, 0], &[0, 0]] {
                            if form == 10 && tail.len() == 1 {
                                continue;
                            }
                            let mut c = x.clone();
                            c.extend_from_slice(tail);
                            if form == 1 && c.len() > 255 {
                                continue;
                            }
                            let el = tlv_form(class, cons, tag, &c, form);
                            if !e(&el) {
                                return;
                            }
                        }
                    }
                    // two layers
                    let a = tlv(2, true, 1, x);
                    if !e(&tlv(class, cons, tag, &a)) || !e(&tlv(class, cons, tag, &tlv_indef(2, 1, x))) {
                        return;
                    }
                }
            }
        }
    })
}

pub fn c13(ctx: &Ctx) {
    let q = !ctx.thorough();
    explore(ctx, &[tagged_space()], |w, i| c13_case(w, i, false));
    // every content of up to 2 octets below a context tag
    let small = Space::new("tagged-contents", 256, |sh, e| {
        for head in [&[0xa0u8][..], &[0x80], &[0x61], &[0xff, 0x21]] {
            let go = |c: &[u8], e: &mut Emit| {
                let mut b = head.to_vec();
                b.push(c.len() as u8);
                b.extend_from_slice(c);
                e(&b)
            };
            go(&[sh as u8], e);
            for y in 0..=255u8 {
                if !go(&[sh as u8, y], e) {
                    return;
                }
            }
        }
    });
    explore(ctx, &[small], move |w, i| c13_case(w, i, q));
    explore(ctx, &comb_spaces(ctx), move |w, i| c13_case(w, i, q));
}

// ------------------------------------------------------------------ C19
type Op = (String, Box<dyn Fn(&[u8]) -> String + Sync + Send>);

/// result of a parse, position of the remainder included
fn show<T: std::fmt::Debug, E: std::fmt::Debug>(i: &[u8], r: nom::IResult<&[u8], T, E>) -> String {
    match r {
        Ok((rem, v)) => format!("ok {} {:?}", i.len() as isize - rem.len() as isize, v),
        Err(e) => format!("err {:?}", e),
    }
}

/// Combinator-built parsers: name, and a function that builds one and applies it in turn to the
/// inputs, giving the results
type Hist = (&'static str, fn(&[&'static [u8]]) -> Vec<String>);

macro_rules! hist {
    ($name:expr, $build:expr) => {
        ($name, |ins: &[&'static [u8]]| {
            #[allow(unused_mut)]
            let mut p = $build;
            ins.iter().map(|i| show(i, p(i))).collect()
        })
    };
}

fn histories() -> Vec<Hist> {
    vec![
        hist!("parse_ber_container", parse_ber_container(|c, _| many(parse_ber)(c))),
        hist!("parse_der_container", parse_der_container(|c, _| many(parse_der)(c))),
        hist!("parse_ber_sequence_of", parse_ber_sequence_of(parse_ber)),
        hist!("parse_ber_sequence_of(integer)", parse_ber_sequence_of(parse_ber_integer)),
        hist!("parse_der_sequence_of", parse_der_sequence_of(parse_der_integer)),
        hist!("parse_ber_set_of", parse_ber_set_of(parse_ber_integer)),
        hist!("parse_der_set_of", parse_der_set_of(parse_der)),
        hist!("parse_ber_sequence_of_v", parse_ber_sequence_of_v(parse_ber_u32)),
        hist!("parse_der_sequence_of_v", parse_der_sequence_of_v(parse_der_u32)),
        hist!("parse_ber_set_of_v", parse_ber_set_of_v(parse_ber_u32)),
        hist!("parse_der_set_of_v", parse_der_set_of_v(parse_der_u32)),
        hist!("parse_ber_sequence_defined", parse_ber_sequence_defined(many(parse_ber_integer))),
        hist!("parse_der_sequence_defined", parse_der_sequence_defined(many(parse_der_integer))),
        hist!("parse_ber_set_defined", parse_ber_set_defined(many(parse_ber))),
        hist!("parse_der_set_defined", parse_der_set_defined(many(parse_der))),
        hist!("parse_ber_sequence_defined_g", parse_ber_sequence_defined_g(|c, h: Header| {
            let (r, v) = parse_ber_u32(c)?;
            Ok((r, (v, h.length())))
        })),
        hist!("parse_der_set_defined_g", parse_der_set_defined_g(|c, _| parse_der_u32(c))),
        hist!("parse_ber_tagged_explicit", parse_ber_tagged_explicit(1, parse_ber_integer)),
        hist!("parse_der_tagged_explicit", parse_der_tagged_explicit(1, parse_der_integer)),
        hist!("parse_ber_tagged_explicit_g", parse_ber_tagged_explicit_g(1, |c, _| parse_ber_u32(c))),
        hist!("parse_der_tagged_explicit_g", parse_der_tagged_explicit_g(1, |c, _| parse_der_u32(c))),
        hist!("parse_ber_tagged_implicit", parse_ber_tagged_implicit(1, parse_ber_content(Tag::Integer))),
        hist!("parse_der_tagged_implicit", parse_der_tagged_implicit(1, parse_der_content(Tag::Integer))),
        hist!("parse_ber_tagged_implicit(sequence)", parse_ber_tagged_implicit(16, parse_ber_content(Tag::Sequence))),
        hist!("parse_ber_tagged_implicit_g", parse_ber_tagged_implicit_g(1, |c, h: Header, d| parse_ber_content2(Tag::Integer)(c, h, d))),
        hist!("parse_der_tagged_implicit_g", parse_der_tagged_implicit_g(1, |c, h: Header, d| parse_der_content2(Tag::Integer)(c, h, d))),
        hist!("parse_ber_optional", parse_ber_optional(parse_ber_integer)),
        hist!("parse_ber_optional(der)", parse_ber_optional(parse_der)),
        hist!("parse_ber_optional(explicit)", parse_ber_optional(parse_ber_tagged_explicit(1, parse_ber_integer))),
        hist!("parse_ber_optional(sequence_of)", parse_ber_optional(parse_ber_sequence_of(parse_ber))),
        hist!("parse_ber_content", {
            let f = parse_ber_content(Tag::Sequence);
            move |i: &'static [u8]| {
                let (r, h) = ber_read_element_header(i)?;
                f(r, &h, MAX_RECURSION)
            }
        }),
        hist!("parse_der_content", {
            let f = parse_der_content(Tag::Sequence);
            move |i: &'static [u8]| {
                let (r, h) = der_read_element_header(i)?;
                f(r, &h, MAX_RECURSION)
            }
        }),
        hist!("parse_ber_content2", {
            let f = parse_ber_content2(Tag::Integer);
            move |i: &'static [u8]| {
                let (r, h) = ber_read_element_header(i)?;
                f(r, h, MAX_RECURSION)
            }
        }),
        hist!("parse_der_content2", {
            let f = parse_der_content2(Tag::Integer);
            move |i: &'static [u8]| {
                let (r, h) = der_read_element_header(i)?;
                f(r, h, MAX_RECURSION)
            }
        }),
    ]
}

/// Inputs of a history: accepted by various parsers, refused in various ways, truncated, empty
fn hist_inputs() -> &'static [Vec<u8>] {
    let mut v: Vec<Vec<u8>> = vec![
        vec![],
        vec![0x30, 6, 2, 1, 1, 2, 1, 2],
        vec![0x30, 6, 2, 1, 1, 2, 1],
        vec![0x30, 0x80, 2, 1, 3, 0, 0],
        vec![0x31, 3, 2, 1, 4],
        vec![0x30, 5, 2, 1, 1, 1, 9],
        vec![0xa1, 3, 2, 1, 5, 0x55],
        vec![0x81, 1, 6],
        vec![2, 1, 7],
        vec![0x30, 0],
        vec![0x61, 3, 4, 1, 5],
        vec![0x3f],
        vec![2, 2, 0, 1],
        // the same shapes under every class and flag, and other tag numbers
        vec![0x41, 1, 6],
        vec![0xc1, 1, 6],
        vec![0x62, 3, 2, 1, 5],
        vec![0xe2, 3, 2, 1, 5],
        vec![0xa2, 3, 2, 1, 5],
        vec![0x22, 3, 2, 1, 5],
        vec![0xa1, 0x80, 2, 1, 9, 0, 0],
        vec![0x82, 1, 6],
        vec![0xe1, 4, 2, 1, 5, 0],
    ];
    // deep nesting: 48 levels (accepted), 60 levels (refused)
    v.push(chain(48, &|l| (0, 16, if l % 2 == 0 { 0 } else { 10 }), &[2, 1, 1], &[], &[]));
    v.push(chain(60, &|_| (0, 16, 0), &[2, 1, 1], &[], &[]));
    v.push(chain(60, &|_| (0, 17, 10), &[], &[], &[]));
    Box::leak(Box::new(v))
}

/// Parsers with a callback: the hook runs inside of it, in the middle of the parse
type Outer = (&'static str, fn(&'static [u8], &dyn Fn()) -> String);

fn outers() -> Vec<Outer> {
    type R<'a, T> = nom::IResult<&'a [u8], T, BerError>;
    struct V<'h>(Vec<String>, &'h dyn Fn());
    impl<'a> der_parser::ber::Visit<'a> for V<'_> {
        fn visit_ber(&mut self, o: &'_ BerObject<'a>, d: usize) {
            (self.1)();
            self.0.push(format!("{} {:?}", d, o.header));
        }
    }
    impl<'a> der_parser::ber::VisitMut<'a> for V<'_> {
        fn visit_ber_mut(&mut self, o: &'_ mut BerObject<'a>, d: usize) {
            (self.1)();
            self.0.push(format!("{} {:?}", d, o.header));
        }
    }
    vec![
        ("parse_ber_container", |i, k| show(i, parse_ber_container(|c, _| { k(); many(parse_ber)(c) })(i))),
        ("parse_der_container", |i, k| show(i, parse_der_container(|c, _| { k(); many(parse_der)(c) })(i))),
        ("parse_ber_sequence_defined_g", |i, k| show(i, parse_ber_sequence_defined_g(|c, h: Header| -> R<_> { k(); let (r, v) = parse_ber_u32(c)?; k(); Ok((r, (v, h.length()))) })(i))),
        ("parse_der_sequence_defined_g", |i, k| show(i, parse_der_sequence_defined_g(|c, h: Header| -> R<_> { k(); let (r, v) = parse_der_u32(c)?; k(); Ok((r, (v, h.length()))) })(i))),
        ("parse_ber_set_defined_g", |i, k| show(i, parse_ber_set_defined_g(|c, _| -> R<_> { k(); parse_ber_u32(c) })(i))),
        ("parse_der_set_defined_g", |i, k| show(i, parse_der_set_defined_g(|c, _| -> R<_> { k(); parse_der_u32(c) })(i))),
        ("parse_ber_sequence_of_v", |i, k| show(i, parse_ber_sequence_of_v(|c| -> R<_> { k(); let r = parse_ber(c); k(); r })(i))),
        ("parse_der_sequence_of_v", |i, k| show(i, parse_der_sequence_of_v(|c| -> R<_> { k(); let r = parse_der(c); k(); r })(i))),
        ("parse_ber_set_of_v", |i, k| show(i, parse_ber_set_of_v(|c| -> R<_> { k(); let r = parse_ber(c); k(); r })(i))),
        ("parse_der_set_of_v", |i, k| show(i, parse_der_set_of_v(|c| -> R<_> { k(); let r = parse_der(c); k(); r })(i))),
        ("parse_ber_tagged_explicit_g", |i, k| show(i, parse_ber_tagged_explicit_g(1, |c, _| -> R<_> { k(); let r = parse_ber(c); k(); r })(i))),
        ("parse_der_tagged_explicit_g", |i, k| show(i, parse_der_tagged_explicit_g(1, |c, _| -> R<_> { k(); let r = parse_der(c); k(); r })(i))),
        ("parse_ber_tagged_implicit_g", |i, k| show(i, parse_ber_tagged_implicit_g(1, |c, h: Header, d| -> R<_> { k(); parse_ber_content2(Tag::Integer)(c, h, d) })(i))),
        ("parse_der_tagged_implicit_g", |i, k| show(i, parse_der_tagged_implicit_g(1, |c, h: Header, d| -> R<_> { k(); parse_der_content2(Tag::Integer)(c, h, d) })(i))),
        ("parse_ber_optional", |i, k| show(i, parse_ber_optional(|c| { k(); let r = parse_ber_sequence(c); k(); r })(i))),
        ("visitor", |i, k| match parse_ber(i) {
            Ok((_, o)) => {
                let mut v = V(vec![], k);
                der_parser::ber::Visit::run(&mut v, &o);
                format!("ok {:?}", v.0)
            }
            Err(e) => format!("err {:?}", e),
        }),
        ("mutable visitor", |i, k| match parse_ber(i) {
            Ok((_, o)) => {
                let mut v = V(vec![], k);
                der_parser::ber::VisitMut::run(&mut v, Box::leak(Box::new(o)));
                format!("ok {:?}", v.0)
            }
            Err(e) => format!("err {:?}", e),
        }),
    ]
}
/// Calls made in the middle of another one: from its callback, on the same or another thread, and
/// nested. These are all the ways two parses can interleave at the points the user controls.
fn c19_reentry(ctx: &Ctx) {
    let ins = hist_inputs();
    let out = outers();
    let ops = operations();
    let alone = |f: &(dyn Fn() -> String + Sync)| std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|_| "panic".into()));
    let obase: Vec<Vec<String>> = out.iter().map(|(_, f)| ins.iter().map(|i| alone(&|| f(i, &|| ()))).collect()).collect();
    let base: Vec<String> = ops.iter().map(|(_, f)| alone(&|| f(&[]))).collect();
    let cut = |s: &str| s.chars().take(300).collect::<String>();
    let n = ins.len();
    ctx.par("calls-within-callbacks", out.len() * n, |sh, w| {
        let (o, x) = (sh / n, sh % n);
        for b in 0..ops.len() {
            for far in [false, true] {
                if !w.case(&[o as u8, x as u8, b as u8, far as u8], "", |w| {
                    let bad = std::cell::RefCell::new(None);
                    let count = std::cell::Cell::new(0u64);
                    let hook = || {
                        // (deep inputs call back often: other threads only for the first ones)
                        count.set(count.get() + 1);
                        let r = if far && count.get() <= 2 { alone(&|| (ops[b].1)(&[])) } else { (ops[b].1)(&[]) };
                        if r != base[b] {
                            *bad.borrow_mut() = Some(r);
                        }
                    };
                    let r = (out[o].1)(&ins[x], &hook);
                    w.calls += 1 + count.get();
                    w.compared += 1 + count.get();
                    if let Some(r) = bad.take() {
                        return Err(format!("{} within a callback of {} on {}: gave {}, alone it gives {}", ops[b].0, out[o].0, hex(&ins[x]), cut(&r), cut(&base[b])));
                    }
                    if r != obase[o][x] {
                        return Err(format!("{} on {} with {} in its callback gave {}, alone it gives {}", out[o].0, hex(&ins[x]), ops[b].0, cut(&r), cut(&obase[o][x])));
                    }
                    w.accepted += 1;
                    Ok(())
                }) {
                    return;
                }
            }
        }
    });
    // one inside the other, many levels
    fn nest(out: &[Outer], ins: &'static [Vec<u8>], base: &[Vec<String>], path: &[(usize, usize)], calls: &std::cell::Cell<u64>) -> Result<(), String> {
        let Some(&(o, x)) = path.first() else { return Ok(()) };
        let inner = std::cell::RefCell::new(None);
        let r = (out[o].1)(&ins[x], &|| {
            if inner.borrow().is_none() {
                let r = nest(out, ins, base, &path[1..], calls);
                *inner.borrow_mut() = Some(r);
            }
        });
        calls.set(calls.get() + 1);
        if r != base[o][x] {
            return Err(format!("{} on {}, {} levels above the innermost call, gave {:.300}, alone it gives {:.300}", out[o].0, hex(&ins[x]), path.len() - 1, r, base[o][x]));
        }
        inner.take().unwrap_or(Ok(()))
    }
    let m = out.len();
    ctx.par("nested-calls", m * n, |sh, w| {
        let (o, x) = (sh / n, sh % n);
        for p in 0..m {
            for y in 0..n {
                for d in [2usize, 3, 10, 52, 64] {
                    // the same call, or two in turn
                    let path: Vec<(usize, usize)> = (0..d).map(|k| if k % 2 == 0 { (o, x) } else { (p, y) }).collect();
                    if !w.case(&[o as u8, x as u8, p as u8, y as u8, d as u8], "", |w| {
                        let calls = std::cell::Cell::new(0);
                        let r = nest(&out, ins, &obase, &path, &calls);
                        w.calls += calls.get();
                        w.compared += calls.get();
                        w.accepted += 1;
                        r
                    }) {
                        return;
                    }
                }
            }
        }
    });
}

pub fn c19(ctx: &Ctx) {
    c19_buffer(ctx);
    c19_reentry(ctx);
    let ins = hist_inputs();
    let k = ins.len();
    let hs = histories();
    let depth = ctx.pick(3, 4);
    // (1) one parser value, every history of inputs, against fresh ones
    for (name, f) in &hs {
        // the answer of a fresh parser to each input, each computed on a fresh thread
        let base: Vec<String> = ins
            .iter()
            .map(|i| std::thread::scope(|s| s.spawn(|| f(&[&i[..]]).pop().unwrap()).join().unwrap_or_else(|_| "panic".into())))
            .collect();
        ctx.par(&format!("history-{}", name), k * k, |sh, w| {
            let total = k.pow(depth as u32 - 2);
            for c in 0..total {
                let mut idx = vec![sh / k, sh % k];
                let mut c = c;
                for _ in 2..depth {
                    idx.push(c % k);
                    c /= k;
                }
                let bytes: Vec<u8> = idx.iter().map(|x| *x as u8).collect();
                let go = w.case(&bytes, "", |w| {
                    let seq: Vec<&'static [u8]> = idx.iter().map(|x| &ins[*x][..]).collect();
                    let r = f(&seq);
                    w.calls += r.len() as u64;
                    for (n, x) in idx.iter().enumerate() {
                        w.compared += 1;
                        if r[n].starts_with("ok") {
                            w.accepted += 1
                        } else {
                            w.refused += 1
                        }
                        if r[n] != base[*x] {
                            return Err(format!(
                                "{}: call {} of the history (input {}) gave {}, a fresh parser gives {}",
                                name,
                                n + 1,
                                hex(&ins[*x]),
                                &r[n][..r[n].len().min(300)],
                                &base[*x][..base[*x].len().min(300)]
                            ));
                        }
                    }
                    Ok(())
                });
                if !go {
                    return;
                }
            }
        });
    }
    // ... and an input repeated many times before another, then the first again
    let reps: &[usize] = if ctx.thorough() { &[7, 49, 50, 51, 64, 128, 256, 1000, 5000] } else { &[7, 50, 64, 300] };
    for (name, f) in &hs {
        let base: Vec<String> = ins
            .iter()
            .map(|i| std::thread::scope(|s| s.spawn(|| f(&[&i[..]]).pop().unwrap()).join().unwrap_or_else(|_| "panic".into())))
            .collect();
        ctx.par(&format!("repetition-{}", name), k * k, |sh, w| {
            let (x, y) = (sh / k, sh % k);
            for &n in reps {
                let key = [x as u8, y as u8, (n >> 8) as u8, n as u8];
                if !w.case(&key, "", |w| {
                    let mut seq: Vec<&'static [u8]> = vec![&ins[x][..]; n];
                    seq.push(&ins[y]);
                    seq.push(&ins[x]);
                    let r = f(&seq);
                    w.calls += r.len() as u64;
                    w.compared += r.len() as u64;
                    for (j, a) in r.iter().enumerate() {
                        let z = if j == n { y } else { x };
                        if *a != base[z] {
                            return Err(format!(
                                "{}: call {} of {} on {} then {}: {}, a fresh parser gives {}",
                                name,
                                j + 1,
                                n,
                                hex(&ins[x]),
                                hex(&ins[y]),
                                &a[..a.len().min(300)],
                                &base[z][..base[z].len().min(300)]
                            ));
                        }
                    }
                    w.accepted += 1;
                    Ok(())
                }) {
                    return;
                }
            }
        });
    }
    // (2) interleavings of different entry points: every pair and triple of operations; and an
    // operation repeated many times before another
    let ops = operations();
    let n = ops.len();
    let base: Vec<String> = ops
        .iter()
        .map(|(_, f)| std::thread::scope(|s| s.spawn(|| f(&[])).join().unwrap_or_else(|_| "panic".into())))
        .collect();
    let check = |w: &mut Worker, seq: &[usize]| -> Result<(), String> {
        for &x in seq {
            let r = (ops[x].1)(&[]);
            w.calls += 1;
            w.compared += 1;
            if r.starts_with("ok") {
                w.accepted += 1
            } else {
                w.refused += 1
            }
            if r != base[x] {
                return Err(format!(
                    "after {:?}: {} gave {}, alone it gives {}",
                    seq.iter().map(|s| &ops[*s].0[..]).collect::<Vec<_>>().iter().take(8).collect::<Vec<_>>(),
                    ops[x].0,
                    &r[..r.len().min(300)],
                    &base[x][..base[x].len().min(300)]
                ));
            }
        }
        Ok(())
    };
    ctx.par("operation-pairs", n, |a, w| {
        for b in 0..n {
            for reps in [1usize, 2, 60, if ctx.thorough() { 1100 } else { 300 }] {
                let key = [(a >> 8) as u8, a as u8, (b >> 8) as u8, b as u8, (reps >> 8) as u8, reps as u8];
                if !w.case(&key, "", |w| {
                    let mut s = vec![a; reps];
                    s.push(b);
                    if reps > 2 {
                        for _ in 1..reps {
                            let _ = (ops[a].1)(&[]);
                        }
                        w.calls += reps as u64 - 1;
                        s = vec![a, b, a];
                    }
                    check(w, &s)
                }) {
                    return;
                }
            }
        }
    });
    let step = if ctx.thorough() { 1 } else { 3 };
    ctx.par("operation-triples", n, |a, w| {
        for b in (a % step..n).step_by(step) {
            for c in (b % step..n).step_by(step) {
                let key = [(a >> 8) as u8, a as u8, (b >> 8) as u8, b as u8, (c >> 8) as u8, c as u8];
                if !w.case(&key, "", |w| check(w, &[a, b, c])) {
                    return;
                }
            }
        }
    });
    // (3) reading, printing, encoding twice; the object stays the same
    let mut lv = leaves_good();
    lv.extend(leaves_tricky());
    let t = std::sync::Arc::new(Trees::new(lv, SHAPES.to_vec(), 2));
    let mut v = vec![
        trees_space("trees", t.clone(), 1),
        trees_space("trees", t.clone(), 2),
        trees_space("trees", t, 3),
        placed_w(one_of_each(), "every-type", true),
        length_sweep(140, false, true),
        chains_w(52, true, true),
    ];
    if ctx.thorough() {
        v.push(bytes_full(3));
    }
    explore(ctx, &v, |w, i| {
        for (p, der) in [(parse_ber as P, false), (parse_der as P, true)] {
            let r1 = p(i);
            let r2 = p(i);
            w.calls += 2;
            w.compared += 1;
            match (&r1, &r2) {
                (Ok((a, x)), Ok((b, y))) => {
                    if a != b || !deep_eq(x, y) || x != y {
                        return Err("the second parse gives another object".into());
                    }
                    w.accepted += 1;
                    let copy = x.clone();
                    let d1 = describe(x);
                    let d2 = describe(x);
                    let d3 = describe(y);
                    if d1 != d2 || d1 != d3 {
                        return Err("reading, printing or encoding twice gives different results".into());
                    }
                    if !deep_eq(x, &copy) || describe(&copy) != d1 {
                        return Err("the object changed by being read, or its copy differs".into());
                    }
                }
                (Err(a), Err(b)) => {
                    w.refused += 1;
                    if a != b {
                        return Err(format!("the second parse gives another error: {:?}, {:?}", a, b));
                    }
                }
                _ => return Err(format!("the second {} parse gives another outcome", if der { "DER" } else { "BER" })),
            }
        }
        Ok(())
    });
}

/// (4) one buffer that is filled again and again: what it held before has no influence
fn c19_buffer(ctx: &Ctx) {
    let mut ins: Vec<Vec<u8>> = hist_inputs().iter().filter(|i| i.len() < 60 && !i.is_empty()).cloned().collect();
    const C: [&[u8]; 9] = [&[0, 0x41], &[0xd8, 0], &[1, 0xff], &[0x80, 0x80], &[0x7f, 0], &[0x2a, 3], &[7, 0x80], b"12", &[0xc3, 0xa9]];
    for t in 1..31u8 {
        for c in C {
            ins.push(tlv(0, t == 16 || t == 17, t as u32, c));
        }
        if t == 23 || t == 24 {
            for c in [&b"240229030405Z"[..], b"240230030405Z", b"20240229030405Z", b"20230229030405Z"] {
                ins.push(tlv(0, false, t as u32, c));
            }
        }
    }
    let inner: Vec<Vec<u8>> = ins[ins.len() - 200..].iter().step_by(7).cloned().collect();
    for x in inner {
        ins.push(tlv(0, true, 16, &x));
        ins.push(tlv(2, true, 1, &x));
    }
    let one = |i: &[u8]| -> String {
        let mut s = String::new();
        for p in [parse_ber as fn(&[u8]) -> der_parser::error::BerResult<'_>, parse_der] {
            match p(i) {
                Ok((r, o)) => {
                    s += &format!("ok {} {:?} {}|", r.len(), o, describe(&o));
                }
                Err(e) => s += &format!("err {:?}|", e),
            }
        }
        s += &format!("{:?}|", parse_ber_sequence_of_v::<_, _, BerError>(parse_ber_u32)(i));
        s += &format!("{:?}", parse_der_tagged_explicit(1, parse_der)(i));
        s
    };
    let base: Vec<String> = ins
        .iter()
        .map(|i| std::thread::scope(|s| s.spawn(|| one(Box::leak(i.clone().into_boxed_slice()))).join().unwrap_or_else(|_| "panic".into())))
        .collect();
    let n = ins.len();
    ctx.par("buffer-reuse", n, |a, w| {
        let mut buf = vec![0u8; 80].into_boxed_slice();
        for b in 0..n {
            if !w.case(&[(a >> 8) as u8, a as u8, (b >> 8) as u8, b as u8], "", |w| {
                for x in [a, b, a] {
                    let l = ins[x].len();
                    buf.fill(0);
                    buf[..l].copy_from_slice(&ins[x]);
                    let r = one(&buf[..l]);
                    w.calls += 4;
                    w.compared += 1;
                    if r != base[x] {
                        return Err(format!(
                            "{} in a buffer that held {} before: {:.300}, in a fresh one: {:.300}",
                            hex(&ins[x]),
                            hex(&ins[if x == a { b } else { a }]),
                            r,
                            base[x]
                        ));
                    }
                }
                w.accepted += 1;
                Ok(())
            }) {
                return;
            }
        }
    });
}

/// everything observable of an object, as text
pub fn describe(o: &BerObject) -> String {
    use der_parser::ber::PrettyPrinterFlag::*;
    let mut s = String::new();
    use std::fmt::Write;
    let _ = write!(s, "{:?}|{:?}|", o.as_u64(), o.as_i32());
    let _ = write!(s, "{:?}|{:?}|", o.as_bigint(), o.as_slice());
    let _ = write!(s, "{:?}|{:?}|", o.as_str(), o.as_bitslice().map(|b| b.len()));
    let _ = write!(s, "{:?}|{:?}|", o.as_pretty(0, 2), o.as_pretty(1, 3));
    let mut pp = o.as_pretty(0, 2);
    pp.set_flag(ShowHeader);
    let _ = write!(s, "{:?}|", pp);
    let _ = write!(s, "{:?}|", o.to_vec().ok());
    let _ = write!(s, "{}|{}", o.ref_iter().count(), o.clone().into_iter().count());
    s
}

/// Operations for interleaved histories: (entry point, input) pairs, both ways of failing included
fn operations() -> Vec<Op> {
    let ins = hist_inputs();
    let mut v: Vec<Op> = vec![];
    let mut add = |name: &str, x: usize, f: fn(&'static [u8]) -> String| {
        let i: &'static [u8] = &ins[x];
        v.push((format!("{}[{}]", name, hex(&i[..i.len().min(8)])), Box::new(move |_| f(i))));
    };
    for x in 0..ins.len() {
        add("parse_ber", x, |i| show(i, parse_ber(i)));
        add("parse_der", x, |i| show(i, parse_der(i)));
    }
    for x in [1usize, 3, ins.len() - 3, ins.len() - 2, ins.len() - 1] {
        add("parse_ber_recursive", x, |i| show(i, parse_ber_recursive(i, 3)));
        add("parse_der_recursive", x, |i| show(i, parse_der_recursive(i, 3)));
        add("parse_ber_sequence", x, |i| show(i, parse_ber_sequence(i)));
        add("two_step_der", x, |i| show(i, two_step_der(i)));
        add("pretty+encode", x, |i| match parse_ber(i) {
            Ok((_, o)) => format!("ok {}", describe(&o)),
            Err(e) => format!("err {:?}", e),
        });
    }
    for x in [1usize, 2, 3, 5, 9] {
        add("sequence_of_v", x, |i| show(i, parse_ber_sequence_of_v(parse_ber_u32)(i)));
        add("der_sequence_of", x, |i| show(i, parse_der_sequence_of(parse_der)(i)));
        add("container", x, |i| show(i, parse_ber_container(|c, _| many(parse_ber)(c))(i)));
    }
    for x in [0usize, 6, 7, 10] {
        add("explicit", x, |i| show(i, parse_ber_tagged_explicit(1, parse_ber)(i)));
        add("implicit", x, |i| show(i, parse_der_tagged_implicit(1, parse_der_content(Tag::Integer))(i)));
        add("explicit_optional", x, |i| show(i, parse_der_explicit_optional(i, Tag(1), parse_der)));
        add("any", x, |i| show(i, via_any(i)));
    }
    v
}
