//! C01-C08, C22: the parsers as functions from byte strings to results.
use crate::cmp::*;
use crate::entry::{self, Out};
use crate::model::{self, No};
use crate::runner::{alloc_peak, Ctx, Worker};
use crate::spaces::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use der_parser::nom;
use nom::multi::many0;
use std::fmt::Write as _;

// ------------------------------------------------------------------------------- C01
struct Sinkhole(usize);
impl std::fmt::Write for Sinkhole {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
#[derive(Default)]
struct Count(usize);
impl<'a> Visit<'a> for Count {
    fn visit_ber(&mut self, _b: &BerObject<'a>, d: usize) {
        self.0 += 1 + d;
    }
}
impl<'a> VisitMut<'a> for Count {
    fn visit_ber_mut(&mut self, _b: &mut BerObject<'a>, d: usize) {
        self.0 += 1 + d;
    }
}

/// Every read-only operation on a parsed object; only that they return matters here
pub fn exercise(o: &BerObject) {
    let mut h = Sinkhole(0);
    let _ = (o.as_i64(), o.as_i32(), o.as_u64(), o.as_u32(), o.as_bool(), o.as_oid(), o.as_oid_val());
    let _ = (o.as_optional(), o.as_tagged(), o.as_bitstring_ref(), o.as_bitstring());
    let _ = (o.as_bitslice().map(|b| b.len()), o.as_sequence().map(|s| s.len()), o.as_set().map(|s| s.len()));
    let _ = (o.as_slice(), o.as_str(), o.as_bigint(), o.as_biguint());
    let _ = (o.class(), o.tag(), o.length(), o.is_universal(), o.is_private(), o.is_constructed());
    let _ = (o.assert_class(Class::Private), o.assert_tag(Tag(16)), o.assert_primitive(), o.assert_constructed());
    if let Ok(b) = o.as_bitstring() {
        for k in [0, 1, 7, 8, 9, b.data.len() * 8, b.data.len() * 8 + 1, usize::MAX] {
            let _ = b.is_set(k);
        }
        let _ = b.as_bitslice().map(|s| s.len());
    }
    if let Ok(oid) = o.as_oid() {
        let _ = write!(h, "{} {:?}", oid.to_id_string(), oid.iter().map(|i| i.count()));
    }
    let _ = write!(h, "{:?}", o);
    let mut p = o.as_pretty(3, 2);
    let _ = write!(h, "{:?}", p);
    p.set_flag(PrettyPrinterFlag::ShowHeader);
    let _ = write!(h, "{:?}", p);
    p.unset_flag(PrettyPrinterFlag::Recursive);
    let _ = write!(h, "{:?}", p);
    let c = o.clone();
    let _ = c == *o;
    let _ = o.ref_iter().count();
    let mut v = Count::default();
    Visit::run(&mut v, o);
    let mut c2 = Box::new(o.clone());
    let r: &mut BerObject = unsafe { &mut *(&mut *c2 as *mut BerObject as *mut BerObject) };
    run_mut(r);
    let _ = c.into_iter().count();
    let _ = o.to_vec();
    for x in o.ref_iter().take(3) {
        let _ = (x.as_u64(), x.as_str(), x.as_slice());
    }
    drop(c2);
}
fn run_mut<'a>(r: &mut BerObject<'a>) {
    // the visitor's signature ties the borrow to the object's own lifetime
    let r: &'a mut BerObject<'a> = unsafe { &mut *(r as *mut BerObject<'a>) };
    let mut v = Count::default();
    VisitMut::run(&mut v, r);
}

fn c01_case(w: &mut Worker, input: &[u8], tags: &[u32], lims: &[usize]) -> Result<(), String> {
    let mut n = 0u64;
    let mut acc = 0u64;
    let bound = 2048 * input.len() + 65536;
    let (r, peak) = alloc_peak(|| {
        entry::all(input, tags, lims, &mut |_, r| {
            n += 1;
            if r.is_ok() {
                acc += 1
            }
            Ok(())
        })
    });
    r?;
    if peak > bound {
        return Err(format!("{} octets allocated while parsing {} octets", peak, input.len()));
    }
    // every distinct way to build an object: exercise it
    for (_, p, _) in entry::GENERIC.iter().take(2) {
        if let Ok((_, o)) = p(input) {
            let (_, peak) = alloc_peak(|| exercise(&o));
            n += 30;
            // text output and copies: a further constant factor
            if peak > bound * 2 {
                return Err(format!("{} octets allocated while reading an object of {} octets", peak, input.len()));
            }
        }
    }
    if acc > 0 && input.len() <= 3000 {
        let _ = entry::all(input, tags, &[], &mut |_, r| {
            match r {
                Ok((_, Out::Obj(o))) | Ok((_, Out::Opt(o))) => exercise(&o),
                _ => (),
            }
            Ok(())
        });
    }
    w.calls += n;
    w.accepted += (acc > 0) as u64;
    w.refused += (acc == 0) as u64;
    w.compared += 1;
    Ok(())
}

pub fn c01(ctx: &Ctx, slow: bool) {
    let lims: Vec<usize> = vec![0, 1, 2, 3, 49, 50];
    let f = |w: &mut Worker, i: &[u8]| {
        let t = entry::tags_for(i);
        c01_case(w, i, &t, &lims)
    };
    if !slow {
        let spaces = standard(ctx, 2);
        explore(ctx, &spaces, f);
    }
    // deep nesting, long runs, at every limit
    let all: Vec<usize> = if slow { lims.clone() } else { (0..=50).collect() };
    let ch = chains_w(60, !ctx.thorough(), slow);
    explore(ctx, &[ch], |w, i| {
        let t = entry::tags_for(i);
        c01_case(w, i, &t, &all)
    });
    let deep = Space::new("very-deep-and-long", 40, move |sh, e| {
        let n = [100usize, 1000, 20_000, if slow { 100_000 } else { 300_000 }, if slow { 200_000 } else { 1_000_000 }][sh % 5];
        let mut v: Vec<u8> = vec![];
        match sh / 5 {
            0 => {
                for _ in 0..n / 2 {
                    v.extend([0x30, 0x80])
                }
            }
            1 => {
                for _ in 0..n / 4 {
                    v.extend([0x31, 0x80, 0xa0, 0x80])
                }
                for _ in 0..n / 2 {
                    v.extend([0, 0])
                }
            }
            2 => {
                // definite nesting of n/6 levels
                let lv = (n / 6).min(20_000);
                let mut cur: Vec<u8> = vec![5, 0];
                let mut heads = vec![];
                let mut len = cur.len();
                for _ in 0..lv {
                    let mut h = vec![0x30];
                    put_len(&mut h, len);
                    len += h.len();
                    heads.push(h);
                }
                for h in heads.iter().rev() {
                    v.extend_from_slice(h)
                }
                v.append(&mut cur);
            }
            3 => {
                // zeroes
                v = tlv(0, false, 2, &vec![0u8; n]);
            }
            4 => v = tlv(0, false, 2, &vec![0xffu8; n]),
            5 => v = tlv(0, false, 6, &vec![0x81u8; n]),
            6 => v = vec![0x00; n],
            _ => {
                let mut c = vec![0u8; n];
                c[0] = 7;
                v = tlv(0, false, 3, &c);
            }
        }
        e(&v);
        // the same content under every string-like type
        if sh / 5 == 4 {
            for t in [3, 4, 7, 10, 12, 13, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30] {
                e(&tlv(0, false, t, &vec![b'0'; n]));
            }
            let mut k = vec![];
            for _ in 0..n / 2 {
                k.extend([5, 0]);
            }
            e(&tlv(0, true, 16, &k));
            e(&tlv_indef(0, 17, &k));
        }
    });
    explore(ctx, &[deep], f);
    // endless nesting of every kind of constructed element in every other, below every kind
    const HEADS: [&[u8]; 12] = [
        &[], &[0x30, 0x80], &[0x31, 0x80], &[0xa0, 0x80], &[0x60, 0x80], &[0xe0, 0x80], &[0x24, 0x80], &[0x2c, 0x80], &[0x20, 0x80], &[0x3f, 0x81, 0x00, 0x80],
        &[0xbf, 0x85, 0x01, 0x80], &[0x28, 0x80],
    ];
    let kinds = Space::new("endless-nesting", HEADS.len() * HEADS.len(), move |sh, e| {
        let (a, b) = (HEADS[sh / HEADS.len()], HEADS[sh % HEADS.len()]);
        if a.is_empty() && b.is_empty() {
            return;
        }
        for first in HEADS {
            for before in [&[][..], &[5u8, 0][..]] {
                let mut v = first.to_vec();
                for _ in 0..20_000 {
                    v.extend_from_slice(a);
                    v.extend_from_slice(before);
                    v.extend_from_slice(b);
                }
                if !e(&v) {
                    return;
                }
            }
        }
    });
    explore(ctx, &[kinds], f);
    if slow {
        // (unoptimised build: a smaller set of inputs)
        let mut items = one_of_each();
        items.extend(bad_elements());
        explore(
            ctx,
            &[bytes_full(0), bytes_full(1), bytes_full(2), Space::list("every-type", items), widths(40, &[1000])],
            f,
        );
    }
}

// ------------------------------------------------------------------------------- C02
fn slice_within(elem: &[u8], s: &[u8]) -> bool {
    let (a, b) = (elem.as_ptr() as usize, elem.as_ptr() as usize + elem.len());
    let p = s.as_ptr() as usize;
    s.is_empty() || (p >= a && p + s.len() <= b)
}
/// all slices an object holds
fn slices<'x>(o: &'x BerObject, f: &mut dyn FnMut(&'x [u8])) {
    use BerObjectContent::*;
    match &o.content {
        Sequence(v) | Set(v) => v.iter().for_each(|x| slices(x, f)),
        Optional(Some(x)) => slices(x, f),
        Tagged(_, _, x) => slices(x, f),
        OID(x) | RelativeOID(x) => f(x.as_bytes()),
        Integer(s) | OctetString(s) | BmpString(s) | UniversalString(s) => f(s),
        BitString(_, b) => f(b.data),
        Unknown(a) => f(a.data),
        c => {
            if let Some((_, s)) = str_of(c) {
                f(s.as_bytes())
            }
        }
    }
    if let Some(r) = o.header.raw_tag() {
        f(r)
    }
}
/// the object's slices are the octets of the model's node
fn exact_slices(input: &[u8], o: &BerObject, n: &model::Node) -> Result<(), String> {
    use BerObjectContent::*;
    match (&o.content, &n.val) {
        (Sequence(v), model::Val::List(l)) | (Set(v), model::Val::List(l)) => {
            if v.len() == l.len() {
                for (a, b) in v.iter().zip(l) {
                    exact_slices(input, a, b)?;
                }
            }
            Ok(())
        }
        (BitString(_, b), _) => same_slice(input, b.data, n.cs + 1, n.ce),
        (OID(x), _) | (RelativeOID(x), _) => same_slice(input, x.as_bytes(), n.cs, n.ce),
        (Integer(s), _) | (OctetString(s), _) | (BmpString(s), _) | (UniversalString(s), _) => {
            same_slice(input, s, n.cs, n.ce)
        }
        (Unknown(a), _) => same_slice(input, a.data, n.cs, n.ce),
        (c, _) => match str_of(c) {
            Some((_, s)) => same_slice(input, s.as_bytes(), n.cs, n.ce),
            None => Ok(()),
        },
    }
}

fn c02_case(w: &mut Worker, input: &[u8], suffixes: &[&[u8]]) -> Result<(), String> {
    let end = match model::frame(input) {
        Ok((_, _, _, e)) => e,
        Err(_) => return Ok(()),
    };
    if end != input.len() {
        return Ok(());
    }
    if input.len() > 70_000 {
        // so long that all the results would not fit in memory at once
        let mut buf = input.to_vec();
        buf.extend_from_slice(&[0, 0, 0, 0, 2, 1, 5]);
        for (name, p, _) in entry::GENERIC {
            if input.len() > 2_000_000 && !["parse_ber", "parse_der"].contains(name) {
                continue;
            }
            w.calls += 2;
            w.compared += 1;
            match (p(input), p(&buf)) {
                (Ok((r1, a)), Ok((r2, b))) => {
                    rem_is(input, r1, end).and_then(|_| rem_is(&buf, r2, end)).map_err(|e| format!("{}: {}", name, e))?;
                    let mut bad = false;
                    slices(&a, &mut |s| bad |= !slice_within(input, s));
                    slices(&b, &mut |s| bad |= !slice_within(&buf[..end], s));
                    if bad {
                        return Err(format!("{}: a slice of the result lies outside the element", name));
                    }
                    if !crate::cmp::deep_eq(&a, &b) {
                        return Err(format!("{}: the result changes with what follows", name));
                    }
                }
                (Err(_), Err(_)) => (),
                (a, b) => return Err(format!("{}: {:.100?} becomes {:.100?}", name, a, b)),
            }
        }
        return Ok(());
    }
    let tags = [model::header(input).map(|h| h.tag).unwrap_or(0)];
    let lims = [2usize, 50];
    let mut base: Vec<(&'static str, entry::RO)> = Vec::with_capacity(96);
    entry::all(input, &tags, &lims, &mut |n, r| {
        base.push((n, r));
        Ok(())
    })?;
    let node = model::ber(input).ok();
    let check_ok = |buf: &[u8], name: &str, rem: &[u8], out: &Out| -> Result<(), String> {
        let elem = &buf[..end];
        match out {
            Out::Hdr(_) => return Ok(()),
            Out::Opt(o) if matches!(o.content, BerObjectContent::Optional(None)) => {
                return rem_is(buf, rem, 0).map_err(|e| format!("{}: absent optional: {}", name, e));
            }
            _ => (),
        }
        rem_is(buf, rem, end).map_err(|e| format!("{}: {}", name, e))?;
        let mut bad = false;
        let mut one = |s: &[u8]| {
            if !slice_within(elem, s) {
                bad = true
            }
        };
        match out {
            Out::Obj(o) | Out::Opt(o) => slices(o, &mut |s| one(s)),
            Out::List(v) => v.iter().for_each(|o| slices(o, &mut |s| one(s))),
            Out::Slice(s) => one(s),
            Out::Any(a) => one(a.data),
            _ => (),
        }
        if bad {
            return Err(format!("{}: a slice of the result lies outside the element", name));
        }
        Ok(())
    };
    for (name, r) in &base {
        if let Ok((rem, out)) = r {
            check_ok(input, name, rem, out)?;
        }
    }
    for (name, p, _) in entry::GENERIC {
        if let (Ok((_, o)), Some(n)) = (p(input), &node) {
            if n.h.class == 0 || name.starts_with("parse_") && !name.contains("content") {
                exact_slices(input, &o, n).map_err(|e| format!("{}: {}", name, e))?;
            }
        }
    }
    w.calls += base.len() as u64 * (1 + suffixes.len() as u64);
    if base.iter().any(|(_, r)| r.is_ok()) {
        w.accepted += 1
    } else {
        w.refused += 1
    }
    let mut buf = Vec::with_capacity(end + 16);
    for s in suffixes {
        buf.clear();
        buf.extend_from_slice(input);
        buf.extend_from_slice(s);
        let b: &[u8] = &buf;
        let mut k = 0;
        entry::all(b, &tags, &lims, &mut |name, r| {
            let base = &base[k].1;
            k += 1;
            match (base, &r) {
                (Ok((_, x)), Ok((rem, y))) => {
                    check_ok(b, name, rem, y)?;
                    if !x.same(y) {
                        return Err(format!(
                            "{}: result {:.200?} becomes {:.200?} when followed by {:02x?}",
                            name, x, y, s
                        ));
                    }
                    Ok(())
                }
                (Err(_), Err(_)) => Ok(()),
                (a, b) => Err(format!(
                    "{}: result {:.200?} becomes {:.200?} when followed by {:02x?}",
                    name, a, b, s
                )),
            }
        })?;
    }
    w.compared += k_u64(suffixes.len());
    Ok(())
}
fn k_u64(x: usize) -> u64 {
    x as u64
}

pub fn c02(ctx: &Ctx) {
    const SUF: &[&[u8]] = &[&[0], &[0, 0], &[0xff], &[2, 1, 5], &[0x30, 0x80, 0, 0], &[0x80, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07]];
    const SUF2: &[&[u8]] = &[&[0], &[0, 0], &[2, 1, 5, 5, 0]];
    let sp = standard(ctx, 2);
    explore(ctx, &sp, |w, i| c02_case(w, i, if i.len() <= 3 { SUF2 } else { SUF }));
    // every octet after every kind of element, once and twice
    let mut items = one_of_each();
    items.extend(bad_elements());
    let sp = Space::new("element-x-next-octet", items.len(), move |sh, e| {
        e(&items[sh]);
    });
    let singles: Vec<Vec<u8>> = (0..=255u8).flat_map(|b| [vec![b], vec![b, b]]).collect();
    let singles: Vec<&[u8]> = singles.iter().map(|v| &v[..]).collect();
    explore(ctx, &[sp], |w, i| c02_case(w, i, &singles));
    // every class, form, tag and length form, followed by every short string of telling octets
    // and by runs of zeros
    let deep = ctx.thorough();
    let sp = Space::new("header-kinds-x-tails", 4 * 33, move |sh, e| {
        let (class, tag) = ((sh / 33) as u8, if sh % 33 == 32 { 1000 } else { (sh % 33) as u32 });
        for cons in [false, true] {
            let mut bodies: Vec<Vec<u8>> = vec![vec![]];
            if cons {
                bodies.push(vec![2, 1, 5]);
                bodies.push(vec![0xa0, 0x80, 0, 0]);
                bodies.push(vec![0xe1, 0x80, 2, 1, 5, 0, 0]);
            } else {
                bodies.push(vec![0]);
                bodies.push(vec![0, 0]);
                bodies.extend(good_content(tag, 2));
            }
            for body in bodies {
                let mut forms = vec![tlv(class, cons, tag, &body)];
                let mut h = vec![];
                put_tag(&mut h, class, cons, tag);
                forms.push([&h[..], &[0x81, body.len() as u8], &body[..]].concat());
                forms.push([&h[..], &[0x80], &body[..], &[0, 0]].concat());
                for f in forms {
                    e(&f);
                    e(&[&[0x30, 0x80][..], &f, &[0, 0]].concat());
                    if deep {
                        e(&[&[0xbf, 0x1f, 0x80, 0x31, 0x80][..], &f, &[0, 0, 0, 0]].concat());
                    }
                }
            }
        }
    });
    let octs: &[u8] = &[0, 1, 5, 0x30, 0x80, 0xff];
    let mut tails: Vec<Vec<u8>> = vec![];
    for n in 1..=if deep { 5usize } else { 3 } {
        for k in 0..octs.len().pow(n as u32) {
            tails.push((0..n).map(|j| octs[k / octs.len().pow(j as u32) % octs.len()]).collect());
        }
    }
    tails.extend((3..=20usize).map(|n| vec![0u8; n]));
    tails.extend((1..=3usize).map(|n| [vec![0u8; 2 * n], vec![2, 1, 5]].concat()));
    let tails: Vec<&[u8]> = tails.iter().map(|v| &v[..]).collect();
    explore(ctx, &[sp], |w, i| c02_case(w, i, &tails));
    c02_content(ctx);
}

/// The two-step parsers, with an explicitly given definite length, take exactly that many octets
fn c02_content(ctx: &Ctx) {
    ctx.par("content-readers", 32, |sh, w| {
        let tag = sh as u32;
        for n in 0..=40usize {
            let c = match good_content(tag, n) {
                Some(c) => c,
                None => continue,
            };
            for extra in 0..4usize {
                let mut b = c.clone();
                b.extend_from_slice(&[0, 0, 5, 0][..extra]);
                let go = w.case(&b, &format!("tag={} len={}", tag, n), |w| {
                    let cons = tag == 16 || tag == 17;
                    for der in [false, true] {
                        w.calls += 1;
                        let r = if der {
                            der_read_element_content_as(&b, Tag(tag), Length::Definite(n), cons, 50)
                        } else {
                            ber_read_element_content_as(&b, Tag(tag), Length::Definite(n), cons, 50)
                        };
                        if let Ok((rem, c)) = r {
                            w.compared += 1;
                            rem_is(&b, rem, n)?;
                            let o = BerObject::from_obj(c);
                            let mut bad = false;
                            slices(&o, &mut |s| bad |= !slice_within(&b[..n], s));
                            if bad {
                                return Err("a slice lies outside the content".into());
                            }
                        } else if tag != 23 && tag != 24 {
                            return Err(format!("well-formed content refused: {:?}", r));
                        }
                    }
                    Ok(())
                });
                if !go {
                    return;
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------- C03
fn c03_case(w: &mut Worker, input: &[u8]) -> Result<(), String> {
    // a complete element is never "incomplete"
    let fr = model::frame(input);
    let own = model::header(input).map(|h| h.tag).unwrap_or(0);
    let universal = input.first().map(|b| b >> 6 == 0).unwrap_or(false);
    if fr.is_ok() {
        let chk = |who: &str, k: Kind| {
            if k == Kind::Inc {
                Err(format!("{}: all octets of the element are present, but it answers 'incomplete'", who))
            } else {
                Ok(())
            }
        };
        for (n, p, _) in entry::GENERIC {
            chk(n, kind(&p(input)))?;
        }
        chk("parse_ber_with_tag", kind(&parse_ber_with_tag(input, Tag(own))))?;
        chk("parse_der_with_tag", kind(&parse_der_with_tag(input, Tag(own))))?;
        for (t, n, b, d) in entry::TYPED {
            if *t == own {
                chk(n, kind(&b(input)))?;
                chk(n, kind(&d(input)))?;
            }
        }
        for l in [1, 2, 50] {
            chk("parse_ber_recursive", kind(&parse_ber_recursive(input, l)))?;
            chk("parse_der_recursive", kind(&parse_der_recursive(input, l)))?;
        }
        w.calls += 18;
        w.compared += 1;
    }
    let m = model::ber(input);
    let node = match &m {
        Ok(n) if n.end == input.len() && !n.any_lenient() => n,
        _ => return Ok(()),
    };
    w.accepted += 1;
    let der_ok = matches!(model::der(input), Ok(n) if !n.any_lenient());
    let n = node.end;
    let full: Vec<usize> = if n <= 140 {
        (0..n).collect()
    } else {
        (0..48).chain((48..n - 48).step_by(((n - 96) / 24).max(1))).chain(n - 48..n).collect()
    };
    let tags = [own];
    let lims = [50usize];
    for k in full {
        let p = &input[..k];
        let need_inc = match model::frame(p) {
            Err(No::More) => true,
            Err(No::MoreTag) => false,
            other => return Err(format!("reference: cut at {} gives {:?}", k, other)),
        };
        w.compared += 1;
        let ctx = |e: String| format!("cut at {} of {}: {}", k, n, e);
        entry::all(p, &tags, &lims, &mut |name, r| {
            w.calls += 1;
            match &r {
                Ok((_, Out::Hdr(_))) => Ok(()),
                Ok((rem, Out::Opt(o))) => {
                    if matches!(o.content, BerObjectContent::Optional(None)) {
                        rem_is(p, rem, 0).map_err(ctx)
                    } else {
                        Err(ctx(format!("{}: truncated element accepted", name)))
                    }
                }
                Ok((_, o)) => Err(ctx(format!("{}: truncated element accepted as {:.200?}", name, o))),
                Err(_) => Ok(()),
            }
        })?;
        if need_inc {
            let must = |name: &str, r: Kind| {
                if r != Kind::Inc {
                    Err(ctx(format!("{}: answers {:?} instead of 'incomplete'", name, r)))
                } else {
                    Ok(())
                }
            };
            must("parse_ber", kind(&parse_ber(p)))?;
            must("parse_ber_recursive", kind(&parse_ber_recursive(p, node.levels().max(1))))?;
            if universal {
                must("parse_ber_with_tag", kind(&parse_ber_with_tag(p, Tag(own))))?;
                must("parse_ber_any_with_tag_r", kind(&parse_ber_any_with_tag_r(p, Tag(own), 50)))?;
            }
            if der_ok {
                must("parse_der", kind(&parse_der(p)))?;
                if universal {
                    must("parse_der_with_tag", kind(&parse_der_with_tag(p, Tag(own))))?;
                }
            }
            if own == 2 && universal {
                must("parse_ber_i32", kind(&parse_ber_i32(p)))?;
                must("parse_ber_u32", kind(&parse_ber_u32(p)))?;
                must("parse_ber_i64", kind(&parse_ber_i64(p)))?;
                must("parse_ber_u64", kind(&parse_ber_u64(p)))?;
                if der_ok {
                    must("parse_der_i32", kind(&parse_der_i32(p)))?;
                    must("parse_der_u32", kind(&parse_der_u32(p)))?;
                    must("parse_der_i64", kind(&parse_der_i64(p)))?;
                    must("parse_der_u64", kind(&parse_der_u64(p)))?;
                }
            }
            if model::header(p).is_err() {
                // cut inside the header: the same of every parser that reads one
                // (containers read their content with a "complete" take, so nothing is said of cuts further on)
                must("ber_read_element_header", kind(&ber_read_element_header(p)))?;
                must("der_read_element_header", kind(&der_read_element_header(p)))?;
                let c = |c, _: Header| Ok::<_, nom::Err<BerError>>((c, ()));
                must("parse_ber_slice", kind(&parse_ber_slice(p, Tag(own))))?;
                must("parse_der_slice", kind(&parse_der_slice(p, Tag(own))))?;
                must("parse_ber_container", kind(&parse_ber_container(c)(p)))?;
                must("parse_der_container", kind(&parse_der_container(c)(p)))?;
                must("parse_ber_sequence_of", kind(&parse_ber_sequence_of(parse_ber)(p)))?;
                must("parse_der_sequence_of", kind(&parse_der_sequence_of(parse_der)(p)))?;
                must("parse_ber_sequence_defined", kind(&parse_ber_sequence_defined(many0(parse_ber))(p)))?;
                must("parse_der_sequence_defined", kind(&parse_der_sequence_defined(many0(parse_der))(p)))?;
                must("parse_ber_set_of", kind(&parse_ber_set_of(parse_ber)(p)))?;
                must("parse_der_set_of", kind(&parse_der_set_of(parse_der)(p)))?;
                must("parse_ber_set_defined", kind(&parse_ber_set_defined(many0(parse_ber))(p)))?;
                must("parse_der_set_defined", kind(&parse_der_set_defined(many0(parse_der))(p)))?;
                must("parse_ber_tagged_explicit", kind(&parse_ber_tagged_explicit(Tag(own), parse_ber)(p)))?;
                must("parse_der_tagged_explicit", kind(&parse_der_tagged_explicit(Tag(own), parse_der)(p)))?;
                must("parse_ber_tagged_implicit", kind(&parse_ber_tagged_implicit(Tag(own), parse_ber_content(Tag(2)))(p)))?;
                must("parse_der_tagged_implicit", kind(&parse_der_tagged_implicit(Tag(own), parse_der_content(Tag(2)))(p)))?;
            }
            for (t, nm, b, d) in entry::TYPED {
                if *t == own && universal {
                    must(nm, kind(&b(p)))?;
                    if der_ok {
                        must(nm, kind(&d(p)))?;
                    }
                }
            }
            w.calls += 8;
        }
    }
    Ok(())
}
pub fn c03(ctx: &Ctx) {
    let sp = standard(ctx, 2);
    explore(ctx, &sp, c03_case);
    if !ctx.thorough() {
        explore(ctx, &[bytes_full(3), bytes_over("nesting-octets", ALPHA_EOC, 7), tags(17000)], c03_case);
    }
}

// ------------------------------------------------------------------------------- C04
pub fn c04(ctx: &Ctx) {
    let f = |w: &mut Worker, i: &[u8]| {
        let m = model::ber(i);
        w.calls += 1;
        let r = parse_ber(i);
        match &r {
            Ok(_) => w.accepted += 1,
            Err(_) => w.refused += 1,
        }
        if matches!(m, Err(No::Unspec)) {
            w.skipped += 1;
        } else {
            w.compared += 1;
        }
        agree(i, "parse_ber", &r, &m)
    };
    let sp = standard(ctx, 0);
    explore(ctx, &sp, f);
    let mut v = vec![string_positions(false), string_long(), string_wide()];
    v.push(enum_contents());
    v.push(oid_contents());
    explore(ctx, &v, f);
}
/// every character-string type x length x position x octet
pub fn string_positions(full: bool) -> Space {
    const T: [u32; 12] = [7, 12, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30];
    let lens: Vec<usize> = if full { (0..=24).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256]).collect() } else { vec![1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33] };
    let nl = lens.len();
    Space::new("string-position-octet", T.len() * nl, move |sh, e| {
        let t = T[sh / nl];
        let n = lens[sh % nl];
        let c = match good_content(t, n) {
            Some(c) => c,
            None => vec![b'0'; n],
        };
        for p in 0..n {
            for b in 0..=255u8 {
                let mut d = c.clone();
                d[p] = b;
                if !e(&tlv(0, false, t, &d)) {
                    return;
                }
            }
        }
    })
}
/// long strings of every type with a wrong octet at each place that could be a block boundary
pub fn string_long() -> Space {
    const T: [u32; 12] = [7, 12, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30];
    Space::new("string-long", 12 * 14, move |sh, e| {
        let tag = T[sh % 12];
        let n = [62, 64, 66, 126, 128, 130, 254, 256, 258, 1000, 1024, 4096, 4098, 65536][sh / 12];
        let Some(c) = good_content(tag, n) else { return };
        let mut ps: Vec<usize> = (0..n.min(70)).chain(n.saturating_sub(70)..n).collect();
        ps.extend((0..n).step_by(if n > 10000 { 1021 } else { 61 }));
        ps.sort();
        ps.dedup();
        for p in ps {
            let mut d = c.clone();
            for x in [0u8, 0x1f, 0x40, 0x7f, 0x80, 0xd8, 0xdc, 0xff] {
                d[p] = x;
                if !e(&tlv(0, false, tag, &d)) {
                    return;
                }
            }
        }
    })
}
/// UTF-8 and BMP strings with a character of several octets (or a broken one) at each place
pub fn string_wide() -> Space {
    const L: [usize; 28] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 1024, 4096];
    const W8: [&[u8]; 12] = [
        &[0xc3, 0xa9], &[0xe2, 0x82, 0xac], &[0xf0, 0x9f, 0x98, 0x80], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xa9], &[0xed, 0xa0, 0x80],
        &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xef, 0xbf, 0xbf], &[0xe0, 0x80, 0x80],
    ];
    const W16: [&[u8]; 7] = [
        &[0xd8, 0, 0xdc, 0], &[0xdb, 0xff, 0xdf, 0xff], &[0xd8, 0], &[0xdc, 0], &[0xdc, 0, 0xd8, 0], &[0xd8, 0, 0xd8, 0, 0xdc, 0], &[0xff, 0xff],
    ];
    Space::new("string-wide-character", L.len() * 2, move |sh, e| {
        let n = L[sh / 2];
        let (tag, unit): (u32, &[u8]) = if sh % 2 == 0 { (12, &[b'a']) } else { (30, &[0, b'a']) };
        let ps: Vec<usize> = if n <= 256 { (0..=n).collect() } else { (0..=n).step_by(256).flat_map(|p| p.saturating_sub(3)..=(p + 3).min(n)).collect() };
        for p in ps {
            for w in if tag == 12 { &W8[..] } else { &W16[..] } {
                for after in [n - p, 0] {
                    let mut d = unit.repeat(p);
                    d.extend_from_slice(w);
                    d.extend(unit.repeat(after));
                    if !e(&tlv(0, false, tag, &d)) {
                        return;
                    }
                }
            }
        }
    })
}
fn enum_contents() -> Space {
    Space::new("enumerated-contents", 12, |n, e| {
        const B: [u8; 7] = [0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff];
        let mut idx = vec![0usize; n.min(6)];
        loop {
            let mut c = vec![0u8; n - n.min(6)];
            c.extend(idx.iter().map(|i| B[*i]));
            e(&tlv(0, false, 10, &c));
            let mut k = idx.len();
            loop {
                if k == 0 {
                    return;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < B.len() {
                    break;
                }
                idx[k] = 0;
            }
        }
    })
}
fn oid_contents() -> Space {
    Space::new("oid-contents", 2, |sh, e| {
        const B: [u8; 9] = [0, 1, 0x27, 0x28, 0x50, 0x7f, 0x80, 0x81, 0xff];
        let tag = if sh == 0 { 6 } else { 13 };
        for n in 0..=5u32 {
            for k in 0..9usize.pow(n) {
                let mut c = vec![];
                let mut x = k;
                for _ in 0..n {
                    c.push(B[x % 9]);
                    x /= 9;
                }
                if !e(&tlv(0, false, tag, &c)) {
                    return;
                }
            }
        }
    })
}

// ------------------------------------------------------------------------------- C05
fn same_answer(i: &[u8], who: &str, a: &R, b: &R) -> Result<(), String> {
    match (a, b) {
        (Ok((r1, o1)), Ok((r2, o2))) => {
            if r1.len() != r2.len() || r1.as_ptr() != r2.as_ptr() {
                return Err(format!("{}: other remainder than the generic parser ({} vs {})", who, r1.len(), r2.len()));
            }
            if !deep_eq(o1, o2) {
                return Err(format!("{}: {:.200?} but generic parser: {:.200?}", who, o1, o2));
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("{}: {:.200?} but generic parser: {:.200?} on {} octets", who, a, b, i.len())),
    }
}
fn c05_case(w: &mut Worker, i: &[u8], wrong: usize) -> Result<(), String> {
    let h = model::header(i);
    let own = match &h {
        Ok(h) => Some(h.tag),
        _ => None,
    };
    if matches!(h, Err(No::Unspec)) {
        w.skipped += 1;
        return Ok(());
    }
    let universal = i.first().map(|b| b >> 6 == 0).unwrap_or(true);
    let (gb, gd) = (parse_ber(i), parse_der(i));
    if gb.is_ok() {
        w.accepted += 1
    } else {
        w.refused += 1
    }
    w.compared += 1;
    let wrong_tag = |who: &str, t: u32, ok: bool| {
        if ok {
            Err(format!("{} expecting tag {} accepts an element with tag {:?}", who, t, own))
        } else {
            Ok(())
        }
    };
    if universal {
        for (n, p, der) in entry::GENERIC {
            same_answer(i, n, &p(i), if *der { &gd } else { &gb })?;
        }
        same_answer(i, "parse_ber_recursive(50)", &parse_ber_recursive(i, MAX_RECURSION), &gb)?;
        same_answer(i, "parse_ber_any_r(50)", &parse_ber_any_r(i, MAX_RECURSION), &gb)?;
        same_answer(i, "parse_der_recursive(50)", &parse_der_recursive(i, MAX_RECURSION), &gd)?;
        w.calls += 16;
        if let Some(t) = own {
            let tag = Tag(t);
            same_answer(i, "parse_ber_with_tag", &parse_ber_with_tag(i, tag), &gb)?;
            same_answer(i, "parse_der_with_tag", &parse_der_with_tag(i, tag), &gd)?;
            same_answer(i, "parse_ber_any_with_tag_r", &parse_ber_any_with_tag_r(i, tag, MAX_RECURSION), &gb)?;
            // content as a slice
            for (who, r, g) in [
                ("parse_ber_slice", parse_ber_slice(i, tag), &gb),
                ("parse_der_slice", parse_der_slice(i, tag), &gd),
            ] {
                match (&r, g) {
                    (Ok((rem, c)), _) => match model::frame(i) {
                        Ok((_, cs, ce, end)) => {
                            rem_is(i, rem, end).and_then(|_| same_slice(i, c, cs, ce)).map_err(|e| format!("{}: {}", who, e))?
                        }
                        Err(e) => return Err(format!("{}: accepts what is not a complete element ({:?})", who, e)),
                    },
                    (Err(e), Ok(_)) => return Err(format!("{}: refuses ({:?}) what the generic parser accepts", who, e)),
                    _ => (),
                }
            }
            w.calls += 5;
        }
        for (t, n, b, d) in entry::TYPED {
            if Some(*t) == own {
                same_answer(i, &format!("parse_ber_{}", n), &b(i), &gb)?;
                same_answer(i, &format!("parse_der_{}", n), &d(i), &gd)?;
                w.calls += 2;
            }
        }
        #[allow(deprecated)]
        if own == Some(26) {
            same_answer(i, "visiblestring", &visiblestring(i), &gd)?;
        }
    }
    // the content decoded as another type: as if the element had the tag of that type
    if let Ok(h) = &h {
        if h.hlen > 0 && !opaque_inside(i) {
            let sh = h.taglen;
            for (t, n, _, _) in entry::TYPED {
                if (Some(*t) == own && universal) || (wrong <= 1 && !matches!(*t, 2 | 4 | 16)) {
                    continue;
                }
                let mut b = vec![*t as u8 | if h.cons { 0x20 } else { 0 }];
                b.extend_from_slice(&i[sh..]);
                let tag = Tag(*t);
                if let Ok((r, hd)) = ber_read_element_header(i) {
                    let g = parse_ber(&b);
                    content_shifted(&format!("ber_read_element_content_as({})", n), &ber_read_element_content_as(r, tag, hd.length(), hd.is_constructed(), 50), &g)?;
                    content_shifted(&format!("parse_ber_content({})", n), &parse_ber_content(tag)(r, &hd, 50), &g)?;
                    content_shifted(&format!("parse_ber_content2({})", n), &parse_ber_content2(tag)(r, hd, 50), &g)?;
                    w.calls += 4;
                }
                if let Ok((r, hd)) = der_read_element_header(i) {
                    let g = parse_der(&b);
                    content_shifted(&format!("der_read_element_content_as({})", n), &der_read_element_content_as(r, tag, hd.length(), hd.is_constructed(), 50), &g)?;
                    content_shifted(&format!("parse_der_content({})", n), &parse_der_content(tag)(r, &hd, 50), &g)?;
                    content_shifted(&format!("parse_der_content2({})", n), &parse_der_content2(tag)(r, hd, 50), &g)?;
                    w.calls += 4;
                }
            }
        }
    }
    // wrong tags
    let o = own.unwrap_or(999_999);
    for (t, n, b, d) in entry::TYPED {
        if *t != o && (wrong > 1 || (*t ^ o).count_ones() == 1 || own.is_none()) {
            wrong_tag(n, *t, b(i).is_ok())?;
            wrong_tag(n, *t, d(i).is_ok())?;
            w.calls += 2;
        }
    }
    let mut others = vec![o ^ 1, o ^ 32, o ^ 128, o ^ 256];
    if wrong > 1 {
        others.extend([o ^ 64, o ^ 512, o ^ 65536, o ^ (1 << 31), o.wrapping_add(1), o.wrapping_sub(1), o % 32, o & 0x1f | 0x20, o % 256, o & 0xffff]);
        others.extend(0..=31);
    }
    for t in others {
        if t == o {
            continue;
        }
        let tag = Tag(t);
        wrong_tag("parse_ber_with_tag", t, parse_ber_with_tag(i, tag).is_ok())?;
        wrong_tag("parse_der_with_tag", t, parse_der_with_tag(i, tag).is_ok())?;
        wrong_tag("parse_ber_any_with_tag_r", t, parse_ber_any_with_tag_r(i, tag, 50).is_ok())?;
        wrong_tag("parse_ber_slice", t, parse_ber_slice(i, tag).is_ok())?;
        wrong_tag("parse_der_slice", t, parse_der_slice(i, tag).is_ok())?;
        w.calls += 5;
    }
    Ok(())
}
pub fn c05(ctx: &Ctx) {
    let sp = standard(ctx, 1);
    explore(ctx, &sp, |w, i| c05_case(w, i, if i.len() == 3 { 1 } else { 2 }));
    explore(ctx, &[string_positions(false), string_long(), string_wide()], |w, i| c05_case(w, i, 1));
    explore(ctx, &[int_contents(2, 18).wrap(|c| tlv(0, false, 2, c))], |w, i| c05_case(w, i, 1));
    // reading header and content in two steps at every limit equals the parsers with that limit
    let lims: Vec<usize> = (0..=8).chain([49, 50]).collect();
    let mut items = one_of_each();
    items.extend(bad_elements());
    explore(ctx, &[chains(10, !ctx.thorough()), placed(items, "every-type-limits")], |w, i| {
        if i.first().map(|b| b >> 6 != 0).unwrap_or(true) {
            return Ok(());
        }
        for &l in &lims {
            let a = parse_ber_recursive(i, l);
            let b = parse_ber_any_r(i, l);
            same_answer(i, &format!("parse_ber_any_r({})", l), &b, &a)?;
            if let Ok((r, h)) = ber_read_element_header(i) {
                let t = parse_ber_any_with_tag_r(i, h.tag(), l);
                same_answer(i, &format!("parse_ber_any_with_tag_r({})", l), &t, &a)?;
                let d = parse_der_recursive(i, l);
                if h.is_universal() && !opaque_inside(i) {
                    let c = ber_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), l);
                    content_same(&format!("ber_read_element_content_as({})", l), &c, &a)?;
                    let c = parse_ber_content(h.tag())(r, &h, l);
                    content_same(&format!("parse_ber_content({})", l), &c, &a)?;
                    let c = parse_ber_content2(h.tag())(r, h.clone(), l);
                    content_same(&format!("parse_ber_content2({})", l), &c, &a)?;
                    let c = der_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), l);
                    content_same(&format!("der_read_element_content_as({})", l), &c, &d)?;
                    let c = parse_der_content(h.tag())(r, &h, l);
                    content_same(&format!("parse_der_content({})", l), &c, &d)?;
                    let c = parse_der_content2(h.tag())(r, h.clone(), l);
                    content_same(&format!("parse_der_content2({})", l), &c, &d)?;
                }
                w.calls += 10;
            }
            w.compared += 1;
        }
        Ok(())
    });
}
/// does the element contain an indefinite-length element that is not a SEQUENCE or SET? (how
/// those count against a limit is not specified)
fn opaque_inside(b: &[u8]) -> bool {
    match model::frame(b) {
        Ok((h, cs, ce, _)) => {
            if h.len == model::Len::Indef && !(h.class == 0 && (h.tag == 16 || h.tag == 17)) {
                return true;
            }
            if !h.cons {
                return false;
            }
            let mut p = cs;
            while p < ce {
                if opaque_inside(&b[p..ce]) {
                    return true;
                }
                match model::frame(&b[p..ce]) {
                    Ok((_, _, _, e)) => p += e,
                    Err(_) => return false,
                }
            }
            false
        }
        Err(_) => false,
    }
}
/// the same content and remainder, of elements whose headers differ in length
fn content_shifted(who: &str, c: &R<BerObjectContent>, g: &R) -> Result<(), String> {
    match (c, g) {
        (Ok((r1, c)), Ok((r2, o))) => {
            if r1.len() != r2.len() || r1 != r2 || *c != o.content {
                Err(format!("{}: {:.200?} but under the tag itself: {:.200?}", who, c, o))
            } else {
                Ok(())
            }
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("{}: {:.200?} but under the tag itself: {:.200?}", who, a, b)),
    }
}
fn content_same(who: &str, c: &R<BerObjectContent>, g: &R) -> Result<(), String> {
    match (c, g) {
        (Ok((r1, c)), Ok((r2, o))) => {
            if r1.as_ptr() != r2.as_ptr() || r1.len() != r2.len() || !value_content_eq(c, &o.content) {
                Err(format!("{}: {:.200?} but generic: {:.200?}", who, c, o))
            } else {
                Ok(())
            }
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("{}: {:.200?} but generic: {:.200?}", who, a, b)),
    }
}

// ------------------------------------------------------------------------------- C06
fn c06_case(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    let fault = match model::der_fault(i) {
        Some(f) => f,
        None => {
            w.accepted += 1;
            return Ok(());
        }
    };
    w.refused += 1;
    w.compared += 1;
    let h = match model::header(i) {
        Ok(h) => h,
        Err(_) => return Ok(()),
    };
    let no = |who: &str, ok: bool| {
        if ok {
            Err(format!("{} accepts an element with: {}", who, fault))
        } else {
            Ok(())
        }
    };
    let tag = Tag(h.tag);
    for (n, p, der) in entry::GENERIC {
        if *der {
            no(n, p(i).is_ok())?;
        }
    }
    for l in [1, 2, 3, 4, 50] {
        no("parse_der_recursive", parse_der_recursive(i, l).is_ok())?;
    }
    if h.len == model::Len::Indef {
        no("parse_der_slice", parse_der_slice(i, tag).is_ok())?;
        no("parse_der_container", parse_der_container::<_, _, BerError>(|c, _| Ok((c, ())))(i).is_ok())?;
        no("parse_der_tagged_explicit_g", parse_der_tagged_explicit_g::<_, _, _, BerError>(tag, |c, _| Ok((c, ())))(i).is_ok())?;
        no("parse_der_tagged_implicit_g", parse_der_tagged_implicit_g::<_, _, _, BerError>(tag, |c, _, _| Ok((c, ())))(i).is_ok())?;
        no("parse_der_sequence_of", parse_der_sequence_of(parse_ber)(i).is_ok())?;
        no("parse_der_set_of", parse_der_set_of(parse_ber)(i).is_ok())?;
        no("der_read_element_header", matches!(der_read_element_header(i), Ok((_, hh)) if hh.length() != Length::Indefinite))?;
    }
    if h.class != 0 {
        return Ok(());
    }
    no("parse_der_with_tag", parse_der_with_tag(i, tag).is_ok())?;
    no("parse_der_sequence_of", parse_der_sequence_of(parse_der)(i).is_ok())?;
    no("parse_der_set_of", parse_der_set_of(parse_der)(i).is_ok())?;
    no("parse_der_sequence_of_v", parse_der_sequence_of_v(parse_der)(i).is_ok())?;
    no("parse_der_set_of_v", parse_der_set_of_v(parse_der)(i).is_ok())?;
    no("parse_der_sequence_defined", parse_der_sequence_defined(entry::many(parse_der))(i).is_ok())?;
    no("parse_der_set_defined", parse_der_set_defined(entry::many(parse_der))(i).is_ok())?;
    no("parse_der_implicit", parse_der_implicit(i, tag, parse_der_content(tag)).is_ok())?;
    no("parse_der_tagged_implicit", parse_der_tagged_implicit(tag, parse_der_content(tag))(i).is_ok())?;
    w.calls += 20;
    for (t, n, _, d) in entry::TYPED {
        if *t == h.tag {
            no(&format!("parse_der_{}", n), d(i).is_ok())?;
        }
    }
    if h.tag == 2 {
        no("parse_der_i32", parse_der_i32(i).is_ok())?;
        no("parse_der_i64", parse_der_i64(i).is_ok())?;
        no("parse_der_u32", parse_der_u32(i).is_ok())?;
        no("parse_der_u64", parse_der_u64(i).is_ok())?;
    }
    // wrapped: explicitly tagged, and as an implicitly tagged element of the same content
    if h.len != model::Len::Indef {
        if i.len() < 100_000 {
            let e = tlv(2, true, 5, i);
            no("parse_der_tagged_explicit", parse_der_tagged_explicit(Tag(5), parse_der)(&e).is_ok())?;
            no(
                "parse_der_explicit_optional",
                matches!(parse_der_explicit_optional(&e, Tag(5), parse_der), Ok((_, o)) if !matches!(o.content, BerObjectContent::Optional(None))),
            )?;
            if let Ok((_, cs, ce, _)) = model::frame(i) {
                let im = tlv(2, h.cons, 7, &i[cs..ce]);
                no("parse_der_implicit [7]", parse_der_implicit(&im, Tag(7), parse_der_content(tag)).is_ok())?;
                no("parse_der_tagged_implicit [7]", parse_der_tagged_implicit(Tag(7), parse_der_content(tag))(&im).is_ok())?;
            }
            w.calls += 4;
        }
    }
    Ok(())
}
pub fn c06(ctx: &Ctx) {
    let sp = standard(ctx, ctx.pick(1, 0));
    explore(ctx, &sp, c06_case);
    explore(ctx, &der_faults(), c06_case);
}

/// faults at the top and nested, at every depth and index
pub fn der_faults() -> Vec<Space> {
    // every fault in contents of every length
    let mut lens: Vec<usize> = (1..=300).collect();
    lens.extend([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537, 131072]);
    let f1 = Space::new("faults-in-long-contents", lens.len(), move |sh, e| {
        let n = lens[sh];
        let mut put = |cons: bool, tag: u32, c: &[u8]| {
            let x = tlv(0, cons, tag, c);
            e(&x) && e(&tlv(0, true, 16, &x)) && e(&tlv(0, true, 17, &[&[5, 0], &x[..], &[5, 0]].concat()))
        };
        for fill in [0u8, 0x33, 0x7f, 0x80, 0xff] {
            // integers: the first two octets
            for a in [0u8, 1, 0x7f, 0x80, 0xfe, 0xff] {
                for b in [0u8, 1, 0x7f, 0x80, 0xfe, 0xff] {
                    let mut c = vec![fill; n];
                    c[0] = a;
                    if n > 1 {
                        c[1] = b;
                    }
                    if !put(false, 2, &c) {
                        return;
                    }
                }
            }
            // bit strings: each unused count with each lowest bit set
            for u in (0..=9u8).chain([128, 255]) {
                for bit in 0..=8 {
                    let mut c = vec![fill; n + 1];
                    c[0] = u;
                    c[n] = if bit == 8 { 0 } else { 1 << bit };
                    if !put(false, 3, &c) {
                        return;
                    }
                    // (the same octets elsewhere mean nothing)
                    let last = c[n];
                    c[n] = 0;
                    c[1] = if n > 1 { last } else { 0 };
                    if bit == 0 && !put(false, 3, &c) {
                        return;
                    }
                }
            }
            let c = vec![fill; n];
            put(false, 1, &c);
            put(true, 3, &[&[0], &c[..]].concat());
        }
        for t in [4u32, 7, 12, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30] {
            if let Some(c) = good_content(t, n) {
                put(true, t, &c);
                put(false, t, &c);
            }
        }
    });
    let f2 = Space::new("faults-nested", 256, |sh, e| {
        for b in 0..=255u8 {
            for t in [1u8, 2, 3, 23] {
                let x = [t, 2, sh as u8, b];
                for &(c, g, f) in SHAPES_DER {
                    let a = tlv_form(c, true, g, &x, f);
                    if !e(&a) {
                        return;
                    }
                    let mut s = vec![5, 0];
                    s.extend_from_slice(&a);
                    e(&tlv(0, true, 16, &s));
                }
            }
        }
    });
    let f3 = Space::new("integer-and-bitstring-faults", 256, |sh, e| {
        for b in 0..=255u8 {
            for n in 2..=9usize {
                for t in [2u8, 3] {
                    let mut c = vec![0x33; n];
                    c[0] = sh as u8;
                    if t == 2 {
                        c[1] = b
                    } else {
                        c[n - 1] = b
                    }
                    if t == 3 && sh > 16 && sh < 250 && n > 3 {
                        continue;
                    }
                    let x = tlv(0, false, t as u32, &c);
                    if !e(&x) {
                        return;
                    }
                    e(&tlv(0, true, 17, &x));
                }
            }
        }
    });
    // one faulty leaf at every depth up to the limit, at every position among siblings
    let mut bad = bad_elements();
    bad.retain(|b| model::der_fault(b).is_some() && b.len() < 40);
    let n = bad.len();
    let f4 = Space::new("fault-at-every-depth", n, move |sh, e| {
        let b = &bad[sh];
        for d in 0..=49usize {
            for k in 0..2 {
                let x = chain(d, &|l| (0, 16 + ((l + k) % 2) as u32, 0), b, if k == 0 { &[] } else { &[5, 0] }, if k == 1 { &[2, 1, 1] } else { &[] });
                if !e(&x) {
                    return;
                }
            }
            // an indefinite container, otherwise DER, at depth d
            if sh < 4 {
                let x = chain(d, &|_| (0, 16, 0), &tlv_indef(0, 16 + (sh as u32 & 1), &[5, 0]), &[], &[]);
                if !e(&x) {
                    return;
                }
            }
        }
    });
    // and at every index of a long list
    let f5 = Space::new("fault-at-every-index", 130, |sh, e| {
        for f in [&[1u8, 1, 1][..], &[2, 2, 0, 1], &[3, 2, 1, 1], &[0x30, 0x80, 0, 0]] {
            for n in [sh + 1, 130] {
                let mut c = vec![];
                for k in 0..n {
                    c.extend_from_slice(if k == sh { f } else { &[5, 0] });
                }
                if !e(&tlv(0, true, 16, &c)) {
                    return;
                }
                e(&tlv(0, true, 17, &c));
            }
        }
    });
    let wide = [131usize, 200, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 4097, 16384, 65535, 65536, 65537];
    let f6 = Space::new("fault-in-wide-list", wide.len(), move |sh, e| {
        let n = wide[sh];
        for f in [&[1u8, 1, 1][..], &[2, 2, 0, 1], &[3, 2, 1, 1], &[0x30, 0x80, 0, 0], &[0x24, 0]] {
            for at in [0, 1, 127, 128, n / 2, n - 3, n - 2, n - 1] {
                let mut c = vec![];
                for k in 0..n {
                    c.extend_from_slice(if k == at { f } else { &[5, 0] });
                }
                if !e(&tlv(0, true, 16 + (at as u32 & 1), &c)) {
                    return;
                }
                e(&tlv(0, true, 17, &tlv(0, true, 16, &c)));
            }
        }
    });
    vec![f1, f2, f3, f4, f5, f6]
}

// ------------------------------------------------------------------------------- C07
fn min_lengths(b: &[u8]) -> bool {
    match model::frame(b) {
        Ok((h, cs, ce, _)) => {
            if !h.minlen || h.len == model::Len::Indef {
                return false;
            }
            // non-minimal tag forms are not DER either
            if h.taglen > 1 && (h.tag < 31 || b[1] == 0x80) {
                return false;
            }
            if h.class == 0 && (h.tag == 16 || h.tag == 17) {
                let mut p = cs;
                while p < ce {
                    if !min_lengths(&b[p..ce]) {
                        return false;
                    }
                    p += model::frame(&b[p..ce]).map(|f| f.3).unwrap_or(usize::MAX / 2);
                }
            }
            true
        }
        Err(_) => false,
    }
}
fn c07_pair(i: &[u8], who: &str, b: &entry::RO, d: &entry::RO, conv: bool) -> Result<(), String> {
    let absent = |x: &entry::RO| matches!(x, Ok((_, Out::Obj(o))) if matches!(o.content, BerObjectContent::Optional(None)));
    if absent(d) && !absent(b) {
        if conv {
            return Err(format!("{}: absent for DER, present for BER, although no DER rule is broken", who));
        }
        return Ok(());
    }
    match (b, d) {
        (Ok((r1, o1)), Ok((r2, o2))) => {
            if r1.as_ptr() != r2.as_ptr() || r1.len() != r2.len() {
                return Err(format!("{}: remainders differ (BER {}, DER {})", who, r1.len(), r2.len()));
            }
            if !o1.same(o2) {
                return Err(format!("{}: BER {:.200?} but DER {:.200?}", who, o1, o2));
            }
            Ok(())
        }
        (Err(e), Ok((_, o))) => Err(format!("{}: DER accepts {:.200?}, BER refuses ({:?})", who, o, e)),
        (Ok((_, o)), Err(e)) if conv && !matches!(o, Out::Opt(_)) => Err(format!(
            "{}: BER accepts {:.200?}, no DER rule is broken, but DER refuses ({:?}); {} octets",
            who,
            o,
            e,
            i.len()
        )),
        _ => Ok(()),
    }
}
fn c07_case(w: &mut Worker, i: &[u8]) -> Result<(), String> {
    if matches!(model::header(i), Err(No::Unspec)) {
        w.skipped += 1;
        return Ok(());
    }
    let end = model::frame(i).map(|f| f.3).unwrap_or(i.len());
    let clean = model::der_fault(i).is_none() && min_lengths(&i[..end]);
    let universal = i.first().map(|b| b >> 6 == 0).unwrap_or(true);
    let own = model::header(i).map(|h| h.tag).unwrap_or(0);
    let tag = Tag(own);
    macro_rules! pair {
        ($n:expr, $b:expr, $d:expr, $k:path, $c:expr) => {{
            let b: R<_> = $b;
            let d: R<_> = $d;
            w.calls += 2;
            // (fast path: both refuse)
            if !(b.is_err() && d.is_err()) {
                let b = b.map(|(r, v)| (r, $k(v)));
                let d = d.map(|(r, v)| (r, $k(v)));
                c07_pair(i, $n, &b, &d, $c)?;
            }
        }};
    }
    fn int<T: Into<i128>>(x: T) -> Out<'static> {
        Out::Int(x.into())
    }
    pair!("generic", parse_ber(i), parse_der(i), Out::Obj, clean);
    pair!("limit 2", parse_ber_recursive(i, 2), parse_der_recursive(i, 2), Out::Obj, clean);
    pair!("limit 3", parse_ber_recursive(i, 3), parse_der_recursive(i, 3), Out::Obj, clean);
    pair!("with tag", parse_ber_with_tag(i, tag), parse_der_with_tag(i, tag), Out::Obj, clean && universal);
    pair!("content as", entry::two_step_ber(i), entry::two_step_der_as(i), Out::Obj, clean && universal);
    pair!("content", entry::content_ber(i), entry::content_der(i), Out::Obj, clean && universal);
    pair!("slice", parse_ber_slice(i, tag), parse_der_slice(i, tag), Out::Slice, clean);
    pair!("header", ber_read_element_header(i), der_read_element_header(i), Out::Hdr, clean);
    pair!(
        "container",
        parse_ber_container(|c, _| Ok((c, c)))(i),
        parse_der_container(|c, _| Ok((c, c)))(i),
        Out::Slice,
        clean
    );
    let prim = i.first().map(|b| b & 0x20 == 0).unwrap_or(true);
    pair!("i32", parse_ber_i32(i), parse_der_i32(i), int, clean && universal && prim && own == 2);
    pair!("i64", parse_ber_i64(i), parse_der_i64(i), int, clean && universal && prim && own == 2);
    pair!("u32", parse_ber_u32(i), parse_der_u32(i), int, clean && universal && prim && own == 2);
    pair!("u64", parse_ber_u64(i), parse_der_u64(i), int, clean && universal && prim && own == 2);
    if own == 16 {
        pair!("sequence-of", parse_ber_sequence_of(parse_ber)(i), parse_der_sequence_of(parse_der)(i), Out::Obj, clean && universal);
        pair!("sequence-of list", parse_ber_sequence_of_v(parse_ber)(i), parse_der_sequence_of_v(parse_der)(i), Out::List, clean && universal);
        pair!("sequence defined", parse_ber_sequence_defined(entry::many(parse_ber))(i), parse_der_sequence_defined(entry::many(parse_der))(i), Out::Obj, clean && universal);
        pair!("sequence defined (generic)", parse_ber_sequence_defined_g(|c, _| Ok((c, c)))(i), parse_der_sequence_defined_g(|c, _| Ok((c, c)))(i), Out::Slice, clean);
    }
    if own == 17 {
        pair!("set-of", parse_ber_set_of(parse_ber)(i), parse_der_set_of(parse_der)(i), Out::Obj, clean && universal);
        pair!("set-of list", parse_ber_set_of_v(parse_ber)(i), parse_der_set_of_v(parse_der)(i), Out::List, clean && universal);
        pair!("set defined", parse_ber_set_defined(entry::many(parse_ber))(i), parse_der_set_defined(entry::many(parse_der))(i), Out::Obj, clean && universal);
        pair!("set defined (generic)", parse_ber_set_defined_g(|c, _| Ok((c, c)))(i), parse_der_set_defined_g(|c, _| Ok((c, c)))(i), Out::Slice, clean);
    }
    if !universal {
        pair!(
            "explicit",
            parse_ber_tagged_explicit(tag, parse_ber)(i),
            parse_der_tagged_explicit(tag, parse_der)(i),
            Out::Obj,
            clean && explicit_clean(i)
        );
        pair!(
            "explicit (generic)",
            parse_ber_tagged_explicit_g(tag, |c, _| Ok((c, c)))(i),
            parse_der_tagged_explicit_g(tag, |c, _| Ok((c, c)))(i),
            Out::Slice,
            clean
        );
        pair!(
            "explicit optional",
            parse_ber_explicit_optional(i, tag, parse_ber),
            parse_der_explicit_optional(i, tag, parse_ber),
            Out::Obj,
            clean && explicit_clean(i)
        );
    }
    for (t, n, b, d) in entry::TYPED {
        if *t == own {
            pair!(n, b(i), d(i), Out::Obj, clean && universal);
        }
    }
    // implicit: the content as other types (only when the content is clean under that type)
    if let Ok((h, cs, ce, _)) = model::frame(i) {
        for t in [2u32, 3, 4, 16, 12, 1] {
            if h.len == model::Len::Indef {
                // DER has to refuse; nothing to compare
                continue;
            }
            if i.len() > 4096 && t == 16 {
                continue;
            }
            let as_t = tlv(0, h.cons, t, &i[cs..ce]);
            let cl = clean && model::der_fault(&as_t).is_none() && min_lengths(&as_t);
            pair!(
                "implicit",
                parse_ber_tagged_implicit(tag, parse_ber_content(Tag(t)))(i),
                parse_der_tagged_implicit(tag, parse_der_content(Tag(t)))(i),
                Out::Obj,
                cl
            );
        }
    }
    w.compared += 1;
    if clean {
        w.accepted += 1
    } else {
        w.refused += 1
    }
    Ok(())
}
fn explicit_clean(i: &[u8]) -> bool {
    match model::frame(i) {
        Ok((_, cs, ce, _)) => model::der_fault(&i[cs..ce]).is_none() && min_lengths(&i[cs..ce]),
        _ => false,
    }
}
pub fn c07(ctx: &Ctx) {
    let mut sp = standard(ctx, 1);
    sp.extend(der_faults());
    explore(ctx, &sp, c07_case);
    explore(ctx, &[int_contents(2, 18).wrap(|c| tlv(0, false, 2, c)), string_positions(false), string_long(), string_wide()], c07_case);
    // explicit wrappers around everything
    let mut items = one_of_each();
    items.extend(bad_elements());
    let sp = Space::new("wrapped", items.len(), move |sh, e| {
        for cl in 0..4u8 {
            for t in [0u32, 1, 2, 5, 16, 30, 31, 127, 128, 1000] {
                if !e(&tlv(cl, true, t, &items[sh])) {
                    return;
                }
                e(&tlv_indef(cl, t, &items[sh]));
            }
        }
    });
    explore(ctx, &[sp], c07_case);
}

// ------------------------------------------------------------------------------- C08
fn depth_answer(i: &[u8], who: &str, r: &R, m: &Result<model::Node, No>) -> Result<(), String> {
    match (r, m) {
        (Ok((rem, o)), Ok(n)) => rem_is(i, rem, n.end).and_then(|_| cmp_obj(i, o, n)).map_err(|e| format!("{}: {}", who, e)),
        (Err(nom::Err::Error(BerError::BerMaxDepth)), Err(No::Depth))
        | (Err(nom::Err::Failure(BerError::BerMaxDepth)), Err(No::Depth)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("{}: accepted, but nested too deeply ({:?})", who, e)),
        (Err(e), Ok(n)) => Err(format!("{}: refused ({:?}) although nested only {} levels", who, e, n.levels())),
        (Err(e), Err(f)) => Err(format!("{}: fails with {:?}, expected the maximum-depth error ({:?})", who, e, f)),
    }
}
fn c08_case(w: &mut Worker, i: &[u8], l: usize) -> Result<(), String> {
    let m = model::ber_n(i, l);
    let own = Tag(i.first().map(|b| (b & 0x1f) as u32).unwrap_or(0));
    w.compared += 1;
    if m.is_ok() {
        w.accepted += 1
    } else {
        w.refused += 1
    }
    depth_answer(i, &format!("parse_ber_recursive({})", l), &parse_ber_recursive(i, l), &m)?;
    depth_answer(i, &format!("parse_ber_any_r({})", l), &parse_ber_any_r(i, l), &m)?;
    depth_answer(i, &format!("parse_ber_any_with_tag_r({})", l), &parse_ber_any_with_tag_r(i, own, l), &m)?;
    w.calls += 3;
    if let Ok((r, h)) = ber_read_element_header(i) {
        depth_ok(&format!("ber_read_element_content_as({})", l), &mk_r(ber_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), l), &h), &m)?;
        depth_ok(&format!("parse_ber_content({})", l), &mk_r(parse_ber_content(h.tag())(r, &h, l), &h), &m)?;
        w.calls += 2;
    }
    if l == 50 {
        depth_answer(i, "parse_ber", &parse_ber(i), &m)?;
        depth_answer(i, "parse_ber_with_tag", &parse_ber_with_tag(i, own), &m)?;
        if own == Tag(16) {
            depth_answer(i, "parse_ber_sequence", &parse_ber_sequence(i), &m)?;
        } else if own == Tag(17) {
            depth_answer(i, "parse_ber_set", &parse_ber_set(i), &m)?;
        }
        depth_answer(i, "TryFrom<Any>", &entry::via_any(i), &m)?;
        w.calls += 4;
    }
    let indef = has_indef(i);
    if !indef {
        let m = model::der_n(i, l);
        depth_answer(i, &format!("parse_der_recursive({})", l), &parse_der_recursive(i, l), &m)?;
        w.calls += 1;
        if let Ok((r, h)) = der_read_element_header(i) {
            depth_ok(&format!("der_read_element_content_as({})", l), &mk_r(der_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), l), &h), &m)?;
            w.calls += 1;
        }
        if l == 50 {
            depth_answer(i, "parse_der", &parse_der(i), &m)?;
            depth_answer(i, "parse_der_with_tag", &parse_der_with_tag(i, own), &m)?;
            depth_answer(i, "der header+content", &entry::two_step_der(i), &m)?;
            w.calls += 3;
        }
    }
    Ok(())
}
fn mk_r<'a>(x: R<'a, BerObjectContent<'a>>, h: &Header<'a>) -> R<'a> {
    x.map(|(r, c)| (r, BerObject::from_header_and_content(h.clone(), c)))
}
fn depth_ok(who: &str, r: &R, m: &Result<model::Node, No>) -> Result<(), String> {
    match (r, m) {
        (Ok(_), Ok(_)) => Ok(()),
        (Err(nom::Err::Error(BerError::BerMaxDepth)), Err(No::Depth))
        | (Err(nom::Err::Failure(BerError::BerMaxDepth)), Err(No::Depth)) => Ok(()),
        (Ok(_), _) => Err(format!("{}: accepted, but nested too deeply", who)),
        (Err(e), Ok(_)) => Err(format!("{}: refused ({:?}) an element within the limit", who, e)),
        (Err(e), Err(f)) => Err(format!("{}: fails with {:?}, expected the maximum-depth error ({:?})", who, e, f)),
    }
}
fn has_indef(b: &[u8]) -> bool {
    match model::frame(b) {
        Ok((h, cs, ce, _)) => {
            if h.len == model::Len::Indef {
                return true;
            }
            if !h.cons {
                return false;
            }
            let mut p = cs;
            while p < ce {
                if has_indef(&b[p..ce]) {
                    return true;
                }
                p += model::frame(&b[p..ce]).map(|f| f.3).unwrap_or(usize::MAX / 2);
            }
            false
        }
        Err(_) => true,
    }
}
pub fn c08(ctx: &Ctx) {
    let maxd = ctx.pick(56, 64);
    ctx.par("depth-x-limit-x-pattern", (maxd + 1) * 51, |sh, w| {
        let (d, l) = (sh / 51, sh % 51);
        for (_, pat) in chain_patterns(d, true) {
            for leaf in [&[2u8, 1, 5][..], &[], &[5, 0]] {
                for (b, a) in [(&[][..], &[][..]), (&[5u8, 0][..], &[2u8, 1, 1][..]), (&[][..], &[0x30u8, 0][..])] {
                    let x = chain(d, &|l| pat[l], leaf, b, a);
                    if x.is_empty() {
                        continue;
                    }
                    if !w.case(&x, &format!("limit={}", l), |w| c08_case(w, &x, l)) {
                        return;
                    }
                    if l != 50 && l != 0 && d > 3 && (l as isize - d as isize).abs() > 4 && leaf.len() == 2 {
                        break;
                    }
                }
            }
        }
    });
    // leaves of every type count one level
    ctx.par("leaf-types", 51, |l, w| {
        for x in one_of_each() {
            for d in [0usize, 1, 2, 48, 49, 50] {
                let y = chain(d, &|_| (0, 16, 0), &x, &[], &[]);
                if y[0] >> 6 != 0 {
                    continue;
                }
                if !w.case(&y, &format!("limit={}", l), |w| c08_case(w, &y, l)) {
                    return;
                }
            }
        }
        // non-universal elements at the top
        for x in [&[0x80u8, 0][..], &[0xa0, 2, 5, 0], &[0xc1, 1, 1]] {
            for der in [false, true] {
                let go = w.case(x, &format!("limit={} der={}", l, der), |w| {
                    w.calls += 1;
                    w.compared += 1;
                    let r = if der { parse_der_recursive(x, l) } else { parse_ber_recursive(x, l) };
                    depth_answer(x, "non-universal element", &r, &model::ber_n(x, l))
                });
                if !go {
                    return;
                }
            }
        }
    });
    // the deep branch at each position of a list, the limit around its depth
    let wmax = ctx.pick(4usize, 7);
    ctx.par("branch-position", 50, |d, w| {
        for n in 1..=wmax {
            for pos in 0..n {
                for form in [0usize, 10] {
                    for inner in [0usize, 10] {
                        let deep = chain(d, &|_| (0, 16, inner), &[5, 0], &[], &[]);
                        let mut c = vec![];
                        for k in 0..n {
                            if k == pos {
                                c.extend_from_slice(&deep)
                            } else {
                                c.extend_from_slice(if k % 2 == 0 { &[2, 1, 1][..] } else { &[0x31, 0][..] })
                            }
                        }
                        let x = tlv_form(0, true, 17, &c, form);
                        for l in d.saturating_sub(1)..=(d + 4).min(50) {
                            if !w.case(&x, &format!("limit={}", l), |w| c08_case(w, &x, l)) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    });
    // all small trees of SEQUENCE/SET, all limits up to 8
    let t = Trees::new(vec![vec![5, 0]], vec![(0, 16, 0), (0, 17, 10), (0, 16, 10)], ctx.pick(5, 6));
    let all = t.all_elems();
    ctx.par("trees-x-limit", 64, |sh, w| {
        for (k, x) in all.iter().enumerate() {
            if k % 64 != sh {
                continue;
            }
            for l in (0..=8).chain([49, 50]) {
                if !w.case(x, &format!("limit={}", l), |w| c08_case(w, x, l)) {
                    return;
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------- C22
#[derive(Clone, Debug)]
enum Tree {
    Leaf(Vec<u8>),
    Box(u8, u32, Vec<Tree>),
}
fn encode(t: &Tree, mask: u64, k: &mut u32) -> Vec<u8> {
    match t {
        Tree::Leaf(b) => b.clone(),
        Tree::Box(c, g, v) => {
            let bit = *k;
            *k += 1;
            let mut body = vec![];
            for x in v {
                body.extend_from_slice(&encode(x, mask, k));
            }
            tlv_form(*c, true, *g, &body, if mask >> bit & 1 == 1 { 10 } else { 0 })
        }
    }
}
fn boxes(t: &Tree) -> u32 {
    match t {
        Tree::Leaf(_) => 0,
        Tree::Box(_, _, v) => 1 + v.iter().map(boxes).sum::<u32>(),
    }
}
fn gen_trees(n: usize, leaves: &[Vec<u8>], shapes: &[(u8, u32)]) -> Vec<Tree> {
    // elements with exactly n nodes
    fn forests(n: usize, l: &[Vec<u8>], s: &[(u8, u32)]) -> Vec<Vec<Tree>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for k in 1..=n {
            let heads = gen_trees(k, l, s);
            let tails = forests(n - k, l, s);
            for h in &heads {
                for t in &tails {
                    let mut v = vec![h.clone()];
                    v.extend(t.iter().cloned());
                    out.push(v);
                }
            }
        }
        out
    }
    let mut out = vec![];
    if n == 1 {
        out.extend(leaves.iter().cloned().map(Tree::Leaf));
    }
    for &(c, g) in shapes {
        for f in forests(n - 1, leaves, shapes) {
            out.push(Tree::Box(c, g, f));
        }
    }
    out
}
/// decoded information is the same; constructed opaque contents are compared element by element
fn indef_eq(a: &BerObject, b: &BerObject) -> bool {
    a.header.class() == b.header.class()
        && a.header.tag() == b.header.tag()
        && a.header.constructed() == b.header.constructed()
        && indef_content_eq(&a.content, &b.content)
}
fn indef_content_eq(a: &BerObjectContent, b: &BerObjectContent) -> bool {
    use BerObjectContent::*;
    match (a, b) {
        (Sequence(x), Sequence(y)) | (Set(x), Set(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| indef_eq(p, q)),
        (Optional(Some(x)), Optional(Some(y))) => indef_eq(x, y),
        (Tagged(c, t, x), Tagged(d, u, y)) => c == d && t == u && indef_eq(x, y),
        (Unknown(x), Unknown(y)) => {
            x.header.class() == y.header.class()
                && x.header.tag() == y.header.tag()
                && x.header.constructed() == y.header.constructed()
                && opaque_eq(x.data, y.data, x.header.constructed())
        }
        (OctetString(x), OctetString(y)) => x == y,
        (Sequence(_), _) | (Set(_), _) | (Optional(Some(_)), _) | (Tagged(..), _) | (Unknown(_), _) => false,
        _ => a == b,
    }
}
/// raw contents that hold the same elements up to length forms (decided with the reference)
fn opaque_eq(x: &[u8], y: &[u8], cons: bool) -> bool {
    if x == y {
        return true;
    }
    if !cons {
        return false;
    }
    let (mut p, mut q) = (0, 0);
    while p < x.len() && q < y.len() {
        match (model::frame(&x[p..]), model::frame(&y[q..])) {
            (Ok((h, cs, ce, e)), Ok((h2, cs2, ce2, e2))) => {
                if h.class != h2.class || h.tag != h2.tag || h.cons != h2.cons {
                    return false;
                }
                if !opaque_eq(&x[p + cs..p + ce], &y[q + cs2..q + ce2], h.cons) {
                    return false;
                }
                p += e;
                q += e2;
            }
            _ => return false,
        }
    }
    p == x.len() && q == y.len()
}
fn c22_pair(w: &mut Worker, a: &[u8], b: &[u8]) -> Result<(), String> {
    let own = Tag(model::header(a).map_err(|_| "reference".to_string())?.tag);
    let universal = a[0] >> 6 == 0;
    let same = |who: &str, x: R, y: R| -> Result<bool, String> {
        match (&x, &y) {
            (Ok((r1, o1)), Ok((r2, o2)))
                if matches!(o1.content, BerObjectContent::Optional(None)) && matches!(o2.content, BerObjectContent::Optional(None)) =>
            {
                // absent: nothing consumed
                if r1.len() != a.len() || r2.len() != b.len() {
                    return Err(format!("{}: absent, but octets consumed", who));
                }
                Ok(false)
            }
            (Ok((r1, o1)), Ok((r2, o2))) => {
                if r1.len() != r2.len() {
                    return Err(format!("{}: {} octets left with indefinite lengths, {} with definite ones", who, r2.len(), r1.len()));
                }
                if !indef_eq(o1, o2) {
                    return Err(format!("{}: decoded {:.300?} with indefinite lengths, {:.300?} with definite ones", who, o2, o1));
                }
                Ok(true)
            }
            (Err(_), Err(_)) => Ok(false),
            _ => Err(format!("{}: definite lengths: {:.300?}, indefinite lengths: {:.300?}", who, x, y)),
        }
    };
    w.compared += 1;
    macro_rules! s {
        ($n:expr, $f:expr) => {{
            w.calls += 2;
            same($n, $f(a), $f(b))?
        }};
    }
    if s!("parse_ber", parse_ber) {
        w.accepted += 1
    } else {
        w.refused += 1
    }
    s!("parse_ber_with_tag", |i| parse_ber_with_tag(i, own));
    s!("header+content_as", entry::two_step_ber);
    s!("parse_ber_content", entry::content_ber);
    if universal {
        s!("TryFrom<Any>", entry::via_any);
        s!("TryFrom<&Any>", entry::via_any_ref);
    }
    s!("parse_ber_sequence", parse_ber_sequence);
    s!("parse_ber_set", parse_ber_set);
    s!("parse_ber_sequence_of", |i| parse_ber_sequence_of(parse_ber)(i));
    s!("parse_ber_set_of", |i| parse_ber_set_of(parse_ber)(i));
    s!("parse_ber_sequence_defined", |i| parse_ber_sequence_defined(entry::many(parse_ber))(i));
    s!("parse_ber_set_defined", |i| parse_ber_set_defined(entry::many(parse_ber))(i));
    s!("parse_ber_tagged_explicit", |i| parse_ber_tagged_explicit(own, parse_ber)(i));
    s!("parse_ber_explicit_optional", |i| parse_ber_explicit_optional(i, own, parse_ber));
    s!("parse_ber_optional", |i| parse_ber_optional(parse_ber)(i));
    for t in [16u32, 17] {
        s!("parse_ber_implicit", |i| parse_ber_implicit(i, own, parse_ber_content(Tag(t))));
        s!("parse_ber_tagged_implicit", |i| parse_ber_tagged_implicit(own, parse_ber_content(Tag(t)))(i));
        s!("parse_ber_tagged_implicit_g", |i| parse_ber_tagged_implicit_g(own, |c, h: Header<'_>, d| {
            let (r, o) = parse_ber_content2(Tag(t))(c, h.clone(), d)?;
            Ok((r, BerObject::from_header_and_content(h, o)))
        })(i));
    }
    // the raw content of containers and slices
    for (who, x, y) in [
        ("parse_ber_container", parse_ber_container::<_, _, BerError>(|c, _| Ok((c, c)))(a), parse_ber_container::<_, _, BerError>(|c, _| Ok((c, c)))(b)),
        ("parse_ber_slice", parse_ber_slice(a, own), parse_ber_slice(b, own)),
        ("parse_ber_any", parse_ber_any(a).map(|(r, x)| (r, x.data)), parse_ber_any(b).map(|(r, x)| (r, x.data))),
    ] {
        w.calls += 2;
        match (&x, &y) {
            (Ok((r1, c1)), Ok((r2, c2))) => {
                if r1.len() != r2.len() || !opaque_eq(c1, c2, true) {
                    return Err(format!("{}: content {:02x?} / {:02x?}", who, c1, c2));
                }
            }
            (Err(_), Err(_)) => (),
            _ => return Err(format!("{}: definite {:?}, indefinite {:?}", who, x, y)),
        }
    }
    Ok(())
}
pub fn c22(ctx: &Ctx) {
    let run = |w: &mut Worker, t: &Tree, masks: &mut dyn Iterator<Item = u64>| -> bool {
        let def = encode(t, 0, &mut 0);
        for m in masks {
            let ind = encode(t, m, &mut 0);
            for suffix in [&[][..], &[0u8, 0][..]] {
                let mut a = def.clone();
                a.extend_from_slice(suffix);
                let mut b = ind.clone();
                b.extend_from_slice(suffix);
                if !w.case(&b, "", |w| c22_pair(w, &a, &b)) {
                    return false;
                }
            }
        }
        true
    };
    let shapes = [(0u8, 16u32), (0, 17), (2, 0), (1, 3)];
    let mut leaves = vec![vec![5, 0], vec![4, 2, 0, 0], vec![0x80, 0], vec![0x20, 0]];
    let sets: Vec<(usize, Vec<Vec<u8>>, &[(u8, u32)])> = {
        let full = {
            leaves.extend([
                vec![0x40, 0], vec![0xc0, 0], vec![0xa0, 0], vec![0x60, 0], vec![0xe0, 0], vec![0x1f, 0, 0], vec![0x00, 0x81, 0],
                vec![0x00, 0x82, 0, 0], vec![0x00, 1, 0], vec![2, 1, 0], vec![4, 4, 0, 0, 0, 0], vec![0x24, 2, 5, 0], vec![0x00, 2, 0, 0],
                vec![0x9f, 0, 0], vec![0xa0, 2, 0, 0], vec![0x02, 2, 0, 0],
            ]);
            leaves
        };
        vec![
            (3, full.clone(), &shapes[..]),
            (ctx.pick(4, 5), full[..4].to_vec(), &shapes[..3]),
            (ctx.pick(5, 6), full[..2].to_vec(), &shapes[..2]),
        ]
    };
    for (k, (n, lv, sh)) in sets.iter().enumerate() {
        for m in 1..=*n {
            let ts = gen_trees(m, lv, sh);
            ctx.par(&format!("tree-x-length-forms-{}-{}", k, m), 256, |s, w| {
                for (j, t) in ts.iter().enumerate() {
                    if j % 256 != s {
                        continue;
                    }
                    let b = boxes(t);
                    if !run(w, t, &mut (1..1u64 << b)) {
                        return;
                    }
                }
            });
        }
    }
    // deep chains: every subset pattern of the first 10 levels is covered above in spirit; here
    // every depth with all-indefinite, alternating and single indefinite levels
    ctx.par("deep-chains", 50, |d, w| {
        for kind in [16u32, 17] {
            for cl in [0u8, 2] {
                let mut t = Tree::Leaf(vec![4, 2, 0, 0]);
                for _ in 0..d {
                    t = Tree::Box(cl, kind, vec![Tree::Leaf(vec![0x80, 0]), t]);
                }
                let full = if d == 0 { 0 } else { (1u64 << d) - 1 };
                let mut ms = vec![full, full & 0x5555_5555_5555_5555, full & 0xaaaa_aaaa_aaaa_aaaa];
                for p in 0..d {
                    ms.push(1 << p);
                    ms.push(full & !(1 << p));
                }
                if !run(w, &t, &mut ms.into_iter()) {
                    return;
                }
            }
        }
    });
    // wide lists
    ctx.par("wide-lists", 260, |n, w| {
        for kid in [vec![5u8, 0], vec![0x80, 0], vec![4, 2, 0, 0], vec![0x30, 0x80, 0, 0], vec![0x31, 2, 5, 0]] {
            let t = Tree::Box(0, 16, vec![Tree::Leaf(kid); n]);
            if !run(w, &t, &mut [1u64].into_iter()) {
                return;
            }
        }
    });
    // every class and tag number as the re-encoded element, outermost, inside itself and inside a SEQUENCE
    let mut tags: Vec<u32> = (0..=130).chain([254, 255, 256, 257, 16383, 16384, 65535, 65536, 1 << 21, (1 << 28) - 1, 1 << 28, u32::MAX - 1, u32::MAX]).collect();
    tags.extend((3..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1]));
    tags.sort();
    tags.dedup();
    ctx.par("every-class-and-tag", 4 * tags.len(), |n, w| {
        let (c, g) = ((n % 4) as u8, tags[n / 4]);
        if c == 0 && (g == 0 || g == 1) {
            return;
        }
        let contents: [&[&[u8]]; 7] = [&[], &[&[5, 0]], &[&[4, 2, 0, 0]], &[&[0x80, 0], &[5, 0]], &[&[0x30, 0x80, 0, 0]], &[&[0x40, 0], &[0x20, 0]], &[&[2, 1, 0], &[4, 2, 0, 0], &[2, 1, 0]]];
        for k in contents {
            let own = Tree::Box(c, g, k.iter().map(|x| Tree::Leaf(x.to_vec())).collect());
            if !run(w, &own, &mut [1u64].into_iter()) {
                return;
            }
            // (decoded as a universal type of this number, other contents are raw octets)
            if c != 0 && [0, 8, 9, 11, 14, 15, 29].contains(&g) || g == 16 || g == 17 || c != 0 && g > 30 {
                let t = Tree::Box(c, g, vec![Tree::Leaf(vec![5, 0]), own.clone()]);
                if !run(w, &t, &mut (1..4u64)) {
                    return;
                }
            }
            for t in [16, 17] {
                let t = Tree::Box(0, t, vec![own.clone(), Tree::Leaf(vec![5, 0])]);
                if !run(w, &t, &mut (1..4u64)) {
                    return;
                }
            }
        }
    });
    // long contents: one long leaf, or many children, in every shape
    let sizes = [100usize, 124, 125, 126, 127, 128, 129, 250, 252, 253, 254, 255, 256, 257, 1000, 4095, 4096, 65530, 65531, 65532, 65533, 65535, 65536, 65537, 1 << 20];
    ctx.par("long-contents", 8 * sizes.len(), |n, w| {
        let (sz, sh) = (sizes[n / 8], n % 8);
        let (c, g) = shapes[sh % 4];
        let t = if sh < 4 {
            Tree::Box(c, g, vec![Tree::Leaf(tlv(0, false, 4, &vec![0; sz]))])
        } else {
            Tree::Box(c, g, vec![Tree::Leaf(vec![5, 0]); (sz / 2).min(70000)])
        };
        let outer = Tree::Box(0, 16, vec![t.clone(), Tree::Leaf(vec![0x80, 0])]);
        if run(w, &t, &mut [1u64].into_iter()) {
            run(w, &outer, &mut (1..4u64));
        }
    });
    // every type as child, every position
    let items = one_of_each();
    ctx.par("children-of-every-type", items.len(), |k, w| {
        let x = Tree::Leaf(items[k].clone());
        let g = Tree::Leaf(vec![2, 1, 5]);
        for (c, t) in [(0u8, 16u32), (0, 17), (2, 0), (2, 31), (3, 1000), (1, 16)] {
            for kids in [vec![x.clone()], vec![g.clone(), x.clone()], vec![x.clone(), g.clone()], vec![x.clone(), x.clone()]] {
                let a = Tree::Box(c, t, kids);
                let b = Tree::Box(0, 16, vec![g.clone(), a.clone(), g.clone()]);
                if !run(w, &a, &mut (1..2)) || !run(w, &b, &mut (1..4)) {
                    return;
                }
            }
        }
    });
    // long contents: the end-of-contents search over long definite children
    ctx.par("long-children", 70, |k, w| {
        let n = if k < 64 { k * 37 } else { [4096, 65535, 65536, 70000, 100_000, 200_000][k - 64] };
        for fill in [0u8, 0xff] {
            let l = Tree::Leaf(tlv(0, false, 4, &vec![fill; n]));
            let t = Tree::Box(0, 16, vec![l.clone(), Tree::Box(2, 0, vec![l.clone()])]);
            if !run(w, &t, &mut (1..4)) {
                return;
            }
        }
    });
}

impl Space {
    /// the same space with every input put through `f`
    pub fn wrap(self, f: impl Fn(&[u8]) -> Vec<u8> + Sync + 'static) -> Space {
        let name = format!("{}*", self.name);
        let shards = self.shards;
        Space::new(name, shards, move |sh, e| {
            self.each(sh, &mut |x| e(&f(x)));
        })
    }
}
