//! Reference model of BER/DER decoding (X.690), written independently of the implementation:
//! it works on offsets into the input and never calls the code under test.
//!
//! `lenient` nodes are encodings X.690 does not allow but the properties do not rule out
//! (a constructed flag on a primitive type, an empty INTEGER, ...): an implementation may refuse
//! them, but if it accepts them the value is the one given here.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Len {
    Def(u64),
    Indef,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hdr {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub len: Len,
    pub taglen: usize,
    pub hlen: usize,
    /// length octets are the shortest possible
    pub minlen: bool,
}

/// Why an input is not (yet) an element.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum No {
    /// more octets are needed
    More,
    /// cut inside a multi-octet tag number
    MoreTag,
    /// malformed
    Bad,
    /// nesting too deep
    Depth,
    /// outside the model (tag number beyond 32 bits)
    Unspec,
}

pub const LIMIT: usize = 50;

pub fn header(b: &[u8]) -> Result<Hdr, No> {
    if b.is_empty() {
        return Err(No::More);
    }
    let class = b[0] >> 6;
    let cons = b[0] & 0x20 != 0;
    let low = b[0] & 0x1f;
    let (tag, taglen) = if low != 31 {
        (low as u32, 1)
    } else {
        let mut v: u64 = 0;
        let mut k = 1;
        loop {
            if k > 5 {
                return Err(No::Bad);
            }
            if k >= b.len() {
                return Err(No::MoreTag);
            }
            v = v * 128 + (b[k] & 0x7f) as u64;
            k += 1;
            if b[k - 1] < 0x80 {
                break;
            }
        }
        if v > u32::MAX as u64 {
            return Err(No::Unspec);
        }
        (v as u32, k)
    };
    let l0 = *b.get(taglen).ok_or(No::More)?;
    let (len, hlen, minlen) = if l0 < 0x80 {
        (Len::Def(l0 as u64), taglen + 1, true)
    } else if l0 == 0x80 {
        if !cons {
            return Err(No::Bad);
        }
        (Len::Indef, taglen + 1, true)
    } else if l0 == 0xff {
        return Err(No::Bad);
    } else {
        let n = (l0 & 0x7f) as usize;
        if b.len() < taglen + 1 + n {
            return Err(No::More);
        }
        let oct = &b[taglen + 1..taglen + 1 + n];
        let sig: &[u8] = {
            let z = oct.iter().take_while(|&&x| x == 0).count();
            &oct[z..]
        };
        if sig.len() > 8 {
            return Err(No::Bad);
        }
        let v = sig.iter().fold(0u64, |a, &x| a << 8 | x as u64);
        (Len::Def(v), taglen + 1 + n, sig.len() == n && v >= 128)
    };
    Ok(Hdr {
        class,
        cons,
        tag,
        len,
        taglen,
        hlen,
        minlen,
    })
}

/// Extent of the element at the start of `b`: (header, content start, content end, element end)
pub fn frame(b: &[u8]) -> Result<(Hdr, usize, usize, usize), No> {
    let h = header(b)?;
    match h.len {
        Len::Def(l) => {
            if ((b.len() - h.hlen) as u64) < l {
                return Err(No::More);
            }
            let e = h.hlen + l as usize;
            Ok((h, h.hlen, e, e))
        }
        Len::Indef => {
            let ce = find_eoc(b, h.hlen, LIMIT - 1)?;
            Ok((h, h.hlen, ce, ce + 2))
        }
    }
}

/// Position of the end-of-contents octets that close the content starting at `p`
fn find_eoc(b: &[u8], mut p: usize, room: usize) -> Result<usize, No> {
    loop {
        if b[p..].starts_with(&[0, 0]) {
            return Ok(p);
        }
        let h = header(&b[p..])?;
        if room == 0 {
            return Err(No::Depth);
        }
        match h.len {
            Len::Def(l) => {
                if ((b.len() - p - h.hlen) as u64) < l {
                    return Err(No::More);
                }
                p += h.hlen + l as usize;
            }
            Len::Indef => p = find_eoc(b, p + h.hlen, room - 1)? + 2,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Time {
    pub year: u32,
    pub month: u8,
    pub day: u8,
    pub hour: u8,
    pub minute: u8,
    pub second: u8,
    pub ms: Option<u16>,
    /// None: unspecified, Some(None): Z, Some(Some((h,m))): offset
    pub zone: Option<Option<(i8, i8)>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Eoc,
    Bool(bool),
    Int,
    Bits(u8),
    Octets,
    Null,
    Enum(u64),
    Oid,
    RelOid,
    Str,
    Bmp,
    Univ,
    Time(Time),
    List(Vec<Node>),
    Unknown,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub h: Hdr,
    /// offsets into the whole input
    pub start: usize,
    pub cs: usize,
    pub ce: usize,
    pub end: usize,
    pub val: Val,
    pub lenient: bool,
}

impl Node {
    pub fn any_lenient(&self) -> bool {
        self.lenient
            || match &self.val {
                Val::List(v) => v.iter().any(|n| n.any_lenient()),
                _ => false,
            }
    }
    /// number of nesting levels: 1 for a leaf or an empty list
    pub fn levels(&self) -> usize {
        match &self.val {
            Val::List(v) => 1 + v.iter().map(|n| n.levels()).max().unwrap_or(0),
            _ => 1,
        }
    }
    pub fn nodes(&self) -> usize {
        match &self.val {
            Val::List(v) => 1 + v.iter().map(|n| n.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
}

pub fn charset_ok(tag: u32, c: &[u8]) -> bool {
    match tag {
        18 => c.iter().all(|b| b.is_ascii_digit() || *b == b' '),
        19 => c.iter().all(|&b| {
            b.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&b)
        }),
        20 | 21 | 26 => c.iter().all(|&b| (0x20..=0x7f).contains(&b)),
        22 | 7 | 25 | 27 => c.iter().all(|&b| b < 0x80),
        12 => utf8_ok(c),
        _ => unreachable!(),
    }
}

/// RFC 3629, by explicit tables
pub fn utf8_ok(c: &[u8]) -> bool {
    let mut i = 0;
    while i < c.len() {
        let (n, lo, hi) = match c[i] {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if n > 0 {
            match c.get(i + 1) {
                Some(x) if *x >= lo && *x <= hi => {}
                _ => return false,
            }
            for k in 2..=n {
                match c.get(i + k) {
                    Some(0x80..=0xbf) => {}
                    _ => return false,
                }
            }
        }
        i += n + 1;
    }
    true
}

pub fn utf16_ok(c: &[u8]) -> bool {
    if c.len() % 2 != 0 {
        return false;
    }
    let mut i = 0;
    while i < c.len() {
        let u = (c[i] as u16) << 8 | c[i + 1] as u16;
        if (0xd800..0xdc00).contains(&u) {
            if i + 3 < c.len() && (c[i + 2] & 0xfc) == 0xdc {
                i += 4;
                continue;
            }
            return false;
        }
        if (0xdc00..0xe000).contains(&u) {
            return false;
        }
        i += 2;
    }
    true
}

fn dd(c: &[u8], p: usize) -> Option<u8> {
    let (a, b) = (*c.get(p)?, *c.get(p + 1)?);
    if a.is_ascii_digit() && b.is_ascii_digit() {
        Some((a - 48) * 10 + b - 48)
    } else {
        None
    }
}

/// The decoded time, and whether the text is one X.680 rules out but that is commonly tolerated
/// (month or day zero, zone out of range, an empty fraction)
pub fn time(c: &[u8], utc: bool) -> Result<(Time, bool), No> {
    let mut beyond = false;
    let r = time_(c, utc, &mut beyond);
    if beyond {
        return Err(No::Unspec);
    }
    r.ok_or(No::Bad)
}
fn time_(c: &[u8], utc: bool, beyond: &mut bool) -> Option<(Time, bool)> {
    let mut lenient = false;
    let mut p = 0;
    let year = if utc {
        p += 2;
        dd(c, 0)? as u32
    } else {
        p += 4;
        dd(c, 0)? as u32 * 100 + dd(c, 2)? as u32
    };
    let month = dd(c, p)?;
    let day = dd(c, p + 2)?;
    let hour = dd(c, p + 4)?;
    let minute = dd(c, p + 6)?;
    p += 8;
    let mut second = 0;
    let mut secs = false;
    if c.len() - p >= 2 {
        match dd(c, p) {
            Some(s) => {
                second = s;
                secs = true;
                p += 2;
            }
            // a zone right after the minutes (e.g. "+0100") is valid X.680 but may be refused
            None => {
                if c[p] == b'+' || c[p] == b'-' {
                    lenient = true
                } else {
                    return None;
                }
            }
        }
    } else if c.len() - p == 1 {
        // minutes only, then Z: fine
    } else {
        // nothing after the minutes: no zone (UTCTime), local time (GeneralizedTime: allowed by
        // X.680, may be refused)
        if utc {
            return None;
        }
        lenient = true;
    }
    if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
        return None;
    }
    if month == 0 || day == 0 {
        lenient = true;
    }
    let mut ms = None;
    if !utc && p < c.len() && (c[p] == b'.' || c[p] == b',') {
        if !secs {
            return None; // decimal fraction of a minute: not supported
        }
        p += 1;
        let ds = c[p..].iter().take_while(|b| b.is_ascii_digit()).count();
        if ds > 3 {
            // more precision than the decoded form can hold: outside the model
            *beyond = true;
            return None;
        }
        if ds == 0 {
            if p == c.len() {
                return None;
            }
            lenient = true;
        }
        let mut v = 0u16;
        for k in 0..3 {
            v = v * 10 + if k < ds { (c[p + k] - 48) as u16 } else { 0 };
        }
        ms = Some(v);
        p += ds;
    }
    let zone = if p == c.len() {
        if utc {
            return None;
        }
        None
    } else if &c[p..] == b"Z" {
        Some(None)
    } else if c.len() - p == 5 && (c[p] == b'+' || c[p] == b'-') {
        let h = dd(c, p + 1)? as i8;
        let m = dd(c, p + 3)? as i8;
        if h > 23 || m > 59 {
            lenient = true;
        }
        // (the decoded form has no sign of its own: -00mm is outside the model)
        if c[p] == b'-' && h == 0 {
            lenient = true;
        }
        Some(Some((if c[p] == b'-' { -h } else { h }, m)))
    } else {
        return None;
    };
    Some((
        Time {
            year,
            month,
            day,
            hour,
            minute,
            second,
            ms,
            zone,
        },
        lenient,
    ))
}

fn oid_ok(c: &[u8]) -> bool {
    // complete sub-identifiers, no leading 0x80
    !c.is_empty()
        && c[c.len() - 1] < 0x80
        && (0..c.len()).all(|i| c[i] != 0x80 || (i > 0 && c[i - 1] >= 0x80))
}

pub fn int_minimal(c: &[u8]) -> bool {
    !c.is_empty() && !(c.len() > 1 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80)))
}

/// Decode the element at offset `at` of `b`, which ends at `lim` at the latest.
pub fn decode(b: &[u8], at: usize, lim: usize, der: bool, room: usize) -> Result<Node, No> {
    if room == 0 {
        return Err(No::Depth);
    }
    let s = &b[at..lim];
    let (h, cs, ce, end) = if der {
        let h = header(s)?;
        match h.len {
            Len::Indef => return Err(No::Bad),
            Len::Def(_) => frame(s)?,
        }
    } else {
        frame(s)?
    };
    let (cs, ce, end) = (at + cs, at + ce, at + end);
    let val_len = decode_content(b, cs, ce, h.class, h.cons, h.tag, h.len, der, room)?;
    Ok(Node {
        h,
        start: at,
        cs,
        ce,
        end,
        val: val_len.0,
        lenient: val_len.1,
    })
}

/// Inside a complete element nothing can be "more to come".
fn inner(e: No) -> No {
    match e {
        No::More | No::MoreTag => No::Bad,
        e => e,
    }
}

#[allow(clippy::too_many_arguments)]
pub fn decode_content(
    b: &[u8],
    cs: usize,
    ce: usize,
    class: u8,
    cons: bool,
    tag: u32,
    len: Len,
    der: bool,
    room: usize,
) -> Result<(Val, bool), No> {
    if room == 0 {
        return Err(No::Depth);
    }
    if class != 0 {
        return Ok((Val::Unknown, false));
    }
    let c = &b[cs..ce];
    let bad = Err(No::Bad);
    Ok(match tag {
        0 => (Val::Eoc, true),
        1 => {
            if c.len() != 1 || len == Len::Indef {
                return bad;
            }
            if der && c[0] != 0 && c[0] != 0xff {
                return bad;
            }
            (Val::Bool(c[0] != 0), cons)
        }
        2 => {
            if der && !int_minimal(c) {
                return bad;
            }
            (Val::Int, cons || c.is_empty())
        }
        3 => {
            if c.is_empty() || cons {
                return bad;
            }
            let lenient = c[0] > 7 || (c[0] as usize) > (c.len() - 1) * 8;
            if der {
                if c[0] > 7 {
                    return bad;
                }
                if c.len() > 1 && c[c.len() - 1] & ((1u16 << c[0]) - 1) as u8 != 0 {
                    return bad;
                }
            }
            (Val::Bits(c[0]), lenient)
        }
        4 => {
            if der && cons {
                return bad;
            }
            (Val::Octets, cons)
        }
        5 => (Val::Null, cons || !c.is_empty()),
        6 => (Val::Oid, cons || !oid_ok(c)),
        13 => (Val::RelOid, cons || !oid_ok(c)),
        10 => {
            let z = c.iter().take_while(|&&x| x == 0).count();
            let v = if c.len() - z > 8 {
                u64::MAX
            } else {
                c[z..].iter().fold(0u64, |a, &x| a << 8 | x as u64)
            };
            // wider than the supported range
            if v > u32::MAX as u64 {
                return bad;
            }
            if cons {
                return bad;
            }
            (
                Val::Enum(v),
                c.is_empty() || c[0] >= 0x80 || !int_minimal(c),
            )
        }
        7 | 12 | 18 | 19 | 20 | 21 | 22 | 25 | 26 | 27 => {
            if cons || !charset_ok(tag, c) {
                return bad;
            }
            (Val::Str, false)
        }
        30 => {
            if cons || !utf16_ok(c) {
                return bad;
            }
            (Val::Bmp, false)
        }
        28 => {
            if cons {
                return bad;
            }
            (Val::Univ, false)
        }
        23 | 24 => {
            if der && c.last() != Some(&b'Z') {
                return bad;
            }
            let (t, l) = time(c, tag == 23)?;
            (Val::Time(t), l || cons)
        }
        16 | 17 => {
            if !cons {
                return bad;
            }
            let mut v = vec![];
            let mut p = cs;
            while p < ce {
                let n = decode(b, p, ce, der, room - 1).map_err(inner)?;
                p = n.end;
                v.push(n);
            }
            (Val::List(v), false)
        }
        _ => (Val::Unknown, false),
    })
}

pub fn ber(b: &[u8]) -> Result<Node, No> {
    decode(b, 0, b.len(), false, LIMIT)
}
pub fn der(b: &[u8]) -> Result<Node, No> {
    decode(b, 0, b.len(), true, LIMIT)
}
pub fn ber_n(b: &[u8], n: usize) -> Result<Node, No> {
    decode(b, 0, b.len(), false, n)
}
pub fn der_n(b: &[u8], n: usize) -> Result<Node, No> {
    decode(b, 0, b.len(), true, n)
}

/// Independent walk over the octets of one complete element: the DER restrictions of C06.
/// Returns a description of the first restriction it breaks. Octets that are not even BER are
/// not judged.
pub fn der_fault(b: &[u8]) -> Option<&'static str> {
    let (h, cs, ce, _) = match frame(b) {
        Ok(f) => f,
        Err(_) => {
            return match header(b) {
                Ok(Hdr { len: Len::Indef, .. }) => Some("indefinite length"),
                _ => None,
            }
        }
    };
    if h.len == Len::Indef {
        return Some("indefinite length");
    }
    let c = &b[cs..ce];
    if h.class != 0 {
        return None;
    }
    match h.tag {
        1 => match c {
            [0] | [0xff] => None,
            _ => Some("BOOLEAN is not one octet 00 or FF"),
        },
        2 => (!int_minimal(c)).then_some("INTEGER empty or not minimal"),
        3 => {
            if h.cons {
                return Some("constructed BIT STRING");
            }
            match c {
                [] => Some("empty BIT STRING"),
                [u, ..] if *u > 7 => Some("more than 7 unused bits"),
                [_] => None,
                [u, .., l] => (l & !(0xffu32 << u) as u8 != 0).then_some("unused bit set"),
            }
        }
        4 | 7 | 12 | 18..=22 | 25..=28 | 30 => {
            h.cons.then_some("constructed string")
        }
        23 | 24 => (c.last() != Some(&b'Z')).then_some("time does not end in Z"),
        16 | 17 => {
            let mut p = 0;
            while p < c.len() {
                if let Some(f) = der_fault(&c[p..]) {
                    return Some(f);
                }
                match frame(&c[p..]) {
                    Ok((_, _, _, e)) => p += e,
                    Err(_) => return None,
                }
            }
            None
        }
        _ => None,
    }
}
