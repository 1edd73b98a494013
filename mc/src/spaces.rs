//! The enumerated input spaces. Each space is a finite set of byte strings, split into shards;
//! nothing in it is random.
use crate::runner::{Ctx, Worker};

pub type Emit<'e> = dyn FnMut(&[u8]) -> bool + 'e;

pub struct Space {
    pub name: String,
    pub shards: usize,
    gen: Box<dyn Fn(usize, &mut Emit) + Sync>,
}
impl Space {
    pub fn new(
        name: impl Into<String>,
        shards: usize,
        gen: impl Fn(usize, &mut Emit) + Sync + 'static,
    ) -> Space {
        Space {
            name: name.into(),
            shards,
            gen: Box::new(gen),
        }
    }
    pub fn each(&self, shard: usize, emit: &mut Emit) {
        (self.gen)(shard, emit)
    }
}

/// Run `f` on every input of the spaces.
pub fn explore<F>(ctx: &Ctx, spaces: &[Space], f: F)
where
    F: Fn(&mut Worker, &[u8]) -> Result<(), String> + Sync,
{
    for sp in spaces {
        ctx.par(&sp.name, sp.shards, |shard, w| {
            sp.each(shard, &mut |input| w.case(input, "", |w| f(w, input)));
        });
    }
}

// ------------------------------------------------------------------ encoding helpers (own code)
pub fn put_len(o: &mut Vec<u8>, l: usize) {
    if l < 128 {
        o.push(l as u8)
    } else {
        let b = l.to_be_bytes();
        let z = b.iter().take_while(|x| **x == 0).count();
        o.push(0x80 | (8 - z) as u8);
        o.extend_from_slice(&b[z..]);
    }
}
/// length in long form with exactly n octets
pub fn put_len_n(o: &mut Vec<u8>, l: usize, n: usize) {
    o.push(0x80 | n as u8);
    for k in (0..n).rev() {
        o.push(if k >= 8 { 0 } else { (l >> (8 * k)) as u8 });
    }
}
pub fn put_tag(o: &mut Vec<u8>, class: u8, cons: bool, tag: u32) {
    let b0 = class << 6 | if cons { 0x20 } else { 0 };
    if tag < 31 {
        o.push(b0 | tag as u8);
    } else {
        o.push(b0 | 31);
        put_b128(o, tag as u64);
    }
}
pub fn put_b128(o: &mut Vec<u8>, v: u64) {
    let mut k = 1;
    while k < 10 && v >> (7 * k) != 0 {
        k += 1;
    }
    for j in (0..k).rev() {
        o.push(((v >> (7 * j)) & 0x7f) as u8 | if j > 0 { 0x80 } else { 0 });
    }
}
pub fn tlv(class: u8, cons: bool, tag: u32, c: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    put_tag(&mut o, class, cons, tag);
    put_len(&mut o, c.len());
    o.extend_from_slice(c);
    o
}
pub fn tlv_indef(class: u8, tag: u32, c: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    put_tag(&mut o, class, true, tag);
    o.push(0x80);
    o.extend_from_slice(c);
    o.extend_from_slice(&[0, 0]);
    o
}
/// Element with one of the length forms: 0 minimal, 1..=9 long form with that many octets,
/// 10 indefinite
pub fn tlv_form(class: u8, cons: bool, tag: u32, c: &[u8], form: usize) -> Vec<u8> {
    if form == 0 {
        return tlv(class, cons, tag, c);
    }
    if form == 10 {
        return tlv_indef(class, tag, c);
    }
    let mut o = vec![];
    put_tag(&mut o, class, cons, tag);
    put_len_n(&mut o, c.len(), form);
    o.extend_from_slice(c);
    o
}

// ------------------------------------------------------------------ raw byte strings
/// All byte strings of exactly n octets
pub fn bytes_full(n: usize) -> Space {
    if n == 0 {
        return Space::new("all-strings-0", 1, |_, e| {
            e(&[]);
        });
    }
    if n == 1 {
        return Space::new("all-strings-1", 1, |_, e| {
            for a in 0..=255u8 {
                if !e(&[a]) {
                    return;
                }
            }
        });
    }
    Space::new(format!("all-strings-{}", n), 65536, move |sh, e| {
        let mut b = vec![0u8; n];
        b[0] = (sh >> 8) as u8;
        b[1] = sh as u8;
        if n == 2 {
            e(&b);
            return;
        }
        let total = 1u64 << (8 * (n - 2));
        for k in 0..total {
            for j in 2..n {
                b[j] = (k >> (8 * (n - 1 - j))) as u8;
            }
            if !e(&b) {
                return;
            }
        }
    })
}

/// All strings of exactly n octets over an alphabet
pub fn bytes_over(name: &str, alpha: &'static [u8], n: usize) -> Space {
    let a = alpha.len();
    let shards = if n >= 2 { a * a } else { 1 };
    Space::new(format!("{}-{}", name, n), shards, move |sh, e| {
        let mut idx = vec![0usize; n];
        let mut b = vec![alpha[0]; n];
        let fixed = if n >= 2 {
            idx[0] = sh / a;
            idx[1] = sh % a;
            b[0] = alpha[idx[0]];
            b[1] = alpha[idx[1]];
            2
        } else {
            0
        };
        loop {
            if !e(&b) {
                return;
            }
            let mut k = n;
            loop {
                if k == fixed {
                    return;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < a {
                    b[k] = alpha[idx[k]];
                    break;
                }
                idx[k] = 0;
                b[k] = alpha[0];
            }
        }
    })
}

/// structural octets: tags of each sort, length forms, EOC, sign/padding boundary values
pub const ALPHA: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x0c, 0x1f, 0x20, 0x30, 0x31, 0x7f, 0x80, 0x81, 0xa0, 0xff,
];
/// smaller, for longer strings: nesting and end-of-contents
pub const ALPHA_EOC: &[u8] = &[0x00, 0x01, 0x02, 0x20, 0x30, 0x80, 0xa0];

/// Every first octet with every 2-octet content, short form
pub fn tlv_two(tags: Vec<u8>) -> Space {
    Space::new("tlv-content-2", tags.len() * 16, move |sh, e| {
        let t = tags[sh / 16];
        let part = sh % 16;
        let mut b = [t, 2, 0, 0];
        for x in part * 16..part * 16 + 16 {
            for y in 0..=255u8 {
                b[2] = x as u8;
                b[3] = y;
                if !e(&b) {
                    return;
                }
            }
        }
    })
}

// ------------------------------------------------------------------ typed contents
/// A well-formed content of about `n` octets for universal type `tag` (None: no such length)
pub fn good_content(tag: u32, n: usize) -> Option<Vec<u8>> {
    let pat = |n: usize, f: &dyn Fn(usize) -> u8| (0..n).map(f).collect::<Vec<u8>>();
    Some(match tag {
        0 | 5 => {
            if n != 0 {
                return None;
            }
            vec![]
        }
        1 => {
            if n != 1 {
                return None;
            }
            vec![0xff]
        }
        2 => {
            if n == 0 {
                return None;
            }
            pat(n, &|i| if i == 0 { 0x41 } else { (i * 7 + 3) as u8 })
        }
        3 => {
            if n == 0 {
                return None;
            }
            let mut v = pat(n, &|i| (i * 11 + 1) as u8);
            v[0] = if n == 1 { 0 } else { (n % 8) as u8 };
            if n > 1 {
                let u = v[0];
                let k = v.len() - 1;
                v[k] &= (0xffu16 << u) as u8;
            }
            v
        }
        4 => pat(n, &|i| (i * 13 + 5) as u8),
        6 | 13 => {
            if n == 0 {
                return None;
            }
            pat(n, &|i| {
                if i == n - 1 || i == 0 {
                    0x2a
                } else if i % 3 == 1 {
                    0x81 + (i % 100) as u8
                } else {
                    (i % 127) as u8 + 1
                }
            })
        }
        10 => {
            if n == 0 || n > 4 {
                return None;
            }
            pat(n, &|i| 0x11 + i as u8)
        }
        7 | 20 | 21 | 22 | 25 | 26 | 27 => pat(n, &|i| 0x20 + (i % 0x5f) as u8),
        18 => pat(n, &|i| b"0123456789 "[i % 11]),
        19 => pat(n, &|i| {
            let s = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";
            s[i % s.len()]
        }),
        12 => {
            let mut v = vec![];
            let cs: [&[u8]; 4] = [b"a", "é".as_bytes(), "€".as_bytes(), "𐍈".as_bytes()];
            let mut k = 0;
            while v.len() < n {
                let c = cs[k % 4];
                k += 1;
                if v.len() + c.len() <= n {
                    v.extend_from_slice(c)
                } else if n - v.len() < 4 {
                    v.push(b'z')
                }
            }
            v
        }
        30 => {
            if n % 2 != 0 {
                return None;
            }
            pat(n, &|i| if i % 2 == 0 { (i % 0xd0) as u8 } else { (i * 3) as u8 })
        }
        28 => {
            if n % 4 != 0 {
                return None;
            }
            pat(n, &|i| if i % 4 == 3 { 0x30 + (i % 64) as u8 } else { 0 })
        }
        23 => match n {
            11 => b"2406301259Z".to_vec(),
            13 => b"991231235959Z".to_vec(),
            17 => b"000101000000-0500".to_vec(),
            _ => return None,
        },
        24 => match n {
            15 => b"20240229123456Z".to_vec(),
            17 => b"20240229123456.7Z".to_vec(),
            18 => b"20240229123456.78Z".to_vec(),
            19 => b"20240229123456.789Z".to_vec(),
            _ => return None,
        },
        16 | 17 => {
            // children of 2.. octets
            if n == 1 {
                return None;
            }
            let mut v = vec![];
            while v.len() < n {
                let left = n - v.len();
                let take = if left <= 129 && left != 3 { left } else { 2 };
                let l = if left == 3 { 1 } else { take - 2 };
                let l = if l >= 128 { l - 1 } else { l };
                let c = pat(l, &|i| i as u8 ^ 0x55);
                v.extend_from_slice(&tlv(0, false, if l == 0 { 5 } else { 4 }, &c));
            }
            if v.len() != n {
                return None;
            }
            v
        }
        _ => pat(n, &|i| (i * 5 + 9) as u8),
    })
}

pub fn cons_of(class: u8, tag: u32) -> bool {
    class == 0 && (tag == 16 || tag == 17 || tag == 8 || tag == 11)
}

/// Every universal type, and the other classes, with well-formed content of every length in the
/// sweep, in every length form
pub fn length_sweep(max: usize, big: bool, light: bool) -> Space {
    let mut lens: Vec<usize> = (0..=max).collect();
    for l in [
        383, 384, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768,
        65534, 65535, 65536, 65537, 70000,
    ] {
        lens.push(l)
    }
    if big {
        lens.extend([131072, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    }
    if light {
        lens.extend([255, 256, 257]);
        lens.retain(|l| *l <= max || [255, 256, 257, 1000, 4096, 65535, 65536].contains(l));
    }
    lens.sort();
    lens.dedup();
    Space::new("type-x-length-x-form", lens.len(), move |sh, e| {
        let n = lens[sh];
        for class in 0..4u8 {
            for tag in 0..32u32 {
                if class != 0 && !(tag <= 2 || tag == 16 || tag == 31) {
                    continue;
                }
                if n > 70000 && !(class == 0 && [2, 4, 16, 12].contains(&tag)) && class != 2 {
                    continue;
                }
                let t = if class == 0 { tag } else { 99 };
                let c = match good_content(t, n) {
                    // (millions of children would not fit in memory eight times)
                    Some(_) if t == 16 && n > 2_000_000 => {
                        let l = ((n - 8) as u32).to_be_bytes();
                        [&[4, 0x84, l[0], l[1], l[2], l[3]][..], &vec![7; n - 8], &[5, 0]].concat()
                    }
                    Some(c) => c,
                    None => continue,
                };
                for cons in [false, true] {
                    for form in 0..=10 {
                        if form >= 1 && form < 8 && (n as u64) >> (8 * form as u32) != 0 {
                            continue;
                        }
                        if form == 10 && (!cons || !cons_ok(&c)) {
                            continue;
                        }
                        if n > 70000 && form != 0 && form != 10 {
                            continue;
                        }
                        if light && n > 300 && (![0, 3, 10].contains(&form) || class != 0 && tag != 2) {
                            continue;
                        }
                        if !e(&tlv_form(class, cons, tag, &c, form)) {
                            return;
                        }
                    }
                }
            }
        }
    })
}
/// can `c` be the content of an indefinite-length element (a series of complete elements)?
fn cons_ok(c: &[u8]) -> bool {
    let mut p = 0;
    let mut k = 0;
    while p < c.len() {
        match crate::model::frame(&c[p..]) {
            Ok((_, _, _, e)) => p += e,
            Err(_) => return false,
        }
        k += 1;
        if k > 200_000 {
            return false;
        }
    }
    true
}

/// Declared length vs available octets: every length form and declared length around every
/// boundary, with a few octets following
pub fn declared_lengths() -> Space {
    Space::new("declared-length", 256, move |sh, e| {
        let t = sh as u8;
        let mut vals: Vec<u64> = vec![];
        for k in 0..64 {
            let p = 1u64 << k;
            vals.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
        }
        vals.extend([u64::MAX, u64::MAX - 1, u64::MAX / 2, u32::MAX as u64, 4_294_967_294, 4_294_967_296]);
        vals.sort();
        vals.dedup();
        for &v in &vals {
            for n in 1..=10usize {
                if n < 8 && v >> (8 * n) != 0 {
                    continue;
                }
                for avail in [0usize, 1, 2, 3, 8] {
                    let mut o = vec![t];
                    if t & 0x1f == 0x1f {
                        o.push(0x25);
                    }
                    o.push(0x80 | n as u8);
                    for k in (0..n).rev() {
                        o.push(if k >= 8 { 0 } else { (v >> (8 * k)) as u8 });
                    }
                    o.extend_from_slice(&[0x02, 0x01, 0x05, 0x04, 0x02, 0x00, 0x00, 0x01][..avail]);
                    if !e(&o) {
                        return;
                    }
                }
            }
        }
        // every reserved / very long form
        for n in 0..=127usize {
            for fill in [0u8, 1, 0xff] {
                let mut o = vec![t];
                if t & 0x1f == 0x1f {
                    o.push(0x25);
                }
                o.push(0x80 | n as u8);
                for k in 0..n {
                    o.push(if k + 1 == n { 2 } else { fill });
                }
                o.extend_from_slice(&[0x05, 0x00, 0x00, 0x00]);
                if !e(&o) {
                    return;
                }
            }
        }
    })
}

/// Tag numbers: all up to `max`, all 7-bit group boundaries up to 32 bits; every class and
/// primitive/constructed; also padded (non-minimal) encodings
pub fn tags(max: u32) -> Space {
    Space::new("tag-numbers", 64, move |sh, e| {
        let mut v: Vec<u32> = (0..=max).filter(|t| (*t % 64) as usize == sh).collect();
        for k in 0..32 {
            let p = 1u32 << k;
            for x in [p.wrapping_sub(1), p, p.wrapping_add(1)] {
                if x > max && (x % 64) as usize == sh {
                    v.push(x)
                }
            }
        }
        if sh == 63 {
            v.push(u32::MAX)
        }
        v.sort();
        v.dedup();
        for t in v {
            for class in 0..4u8 {
                for cons in [false, true] {
                    for c in [&[][..], &[0u8][..], &[2, 1, 7][..]] {
                        let mut o = vec![];
                        put_tag(&mut o, class, cons, t);
                        put_len(&mut o, c.len());
                        o.extend_from_slice(c);
                        if !e(&o) {
                            return;
                        }
                    }
                    if cons {
                        let mut o = vec![];
                        put_tag(&mut o, class, cons, t);
                        o.extend_from_slice(&[0x80, 2, 1, 7, 0, 0]);
                        if !e(&o) {
                            return;
                        }
                    }
                    // high-tag-number form, with 0..=3 padding groups
                    for pad in 0..4 {
                        let mut o = vec![class << 6 | (cons as u8) << 5 | 31];
                        for _ in 0..pad {
                            o.push(0x80)
                        }
                        put_b128(&mut o, t as u64);
                        o.extend_from_slice(&[1, 0xff]);
                        if !e(&o) {
                            return;
                        }
                    }
                }
            }
        }
    })
}

// ------------------------------------------------------------------ trees
/// Enumerates every tree with a given number of nodes over leaves and container shapes.
/// A container shape is (class, tag, form) where form is as in `tlv_form`.
pub struct Trees {
    pub leaves: Vec<Vec<u8>>,
    pub shapes: Vec<(u8, u32, usize)>,
    elems: Vec<Vec<Vec<u8>>>,
    forests: Vec<Vec<Vec<u8>>>,
}
impl Trees {
    pub fn new(leaves: Vec<Vec<u8>>, shapes: Vec<(u8, u32, usize)>, upto: usize) -> Trees {
        let mut t = Trees {
            leaves,
            shapes,
            elems: vec![vec![]],
            forests: vec![vec![vec![]]],
        };
        for n in 1..=upto {
            t.grow(n);
        }
        t
    }
    fn grow(&mut self, n: usize) {
        let mut es = vec![];
        if n == 1 {
            es.extend(self.leaves.iter().cloned());
        }
        for &(c, g, f) in &self.shapes {
            for fo in &self.forests[n - 1] {
                es.push(tlv_form(c, true, g, fo, f));
            }
        }
        self.elems.push(es);
        let mut fs = vec![];
        for k in 1..=n {
            for a in &self.elems[k] {
                for b in &self.forests[n - k] {
                    let mut x = a.clone();
                    x.extend_from_slice(b);
                    fs.push(x);
                }
            }
        }
        self.forests.push(fs);
    }
    /// materialised elements with n nodes
    pub fn elems(&self, n: usize) -> &[Vec<u8>] {
        &self.elems[n]
    }
    pub fn all_elems(&self) -> Vec<Vec<u8>> {
        self.elems.iter().flatten().cloned().collect()
    }
    pub fn forests(&self, n: usize) -> &[Vec<u8>] {
        &self.forests[n]
    }
}
/// The trees of one node more than was materialised, streamed: every container shape around
/// every forest
pub fn trees_space(name: &str, t: std::sync::Arc<Trees>, n: usize) -> Space {
    let up = t.elems.len() - 1;
    assert!(n <= up + 2);
    let shards = 512;
    Space::new(format!("{}-{}", name, n), shards, move |sh, e| {
        let mut idx = 0usize;
        if n <= up {
            for (k, x) in t.elems[n].iter().enumerate() {
                if k % shards == sh && !e(x) {
                    return;
                }
            }
            return;
        }
        let mut content = vec![];
        // forest of n-1 nodes = element of k nodes + forest of n-1-k nodes
        for k in 1..n {
            let rest = n - 1 - k;
            if k > up {
                // k == up + 1, rest == 0: a streamed element inside
                for &(c, g, f) in &t.shapes {
                    for fo in &t.forests[k - 1] {
                        idx += 1;
                        if idx % shards != sh {
                            continue;
                        }
                        let inner = tlv_form(c, true, g, fo, f);
                        for &(c2, g2, f2) in &t.shapes {
                            if !e(&tlv_form(c2, true, g2, &inner, f2)) {
                                return;
                            }
                        }
                    }
                }
                continue;
            }
            for a in &t.elems[k] {
                idx += 1;
                if idx % shards != sh {
                    continue;
                }
                for b in &t.forests[rest] {
                    content.clear();
                    content.extend_from_slice(a);
                    content.extend_from_slice(b);
                    for &(c, g, f) in &t.shapes {
                        if !e(&tlv_form(c, true, g, &content, f)) {
                            return;
                        }
                    }
                }
            }
        }
    })
}

/// leaves that are good DER
pub fn leaves_good() -> Vec<Vec<u8>> {
    vec![
        vec![0x02, 0x01, 0x05],
        vec![0x05, 0x00],
        vec![0x04, 0x03, 0x00, 0x00, 0xff],
        vec![0x81, 0x00],
    ]
}
/// leaves that look like an end-of-contents or break a DER rule
pub fn leaves_tricky() -> Vec<Vec<u8>> {
    vec![
        vec![0x04, 0x02, 0x00, 0x00],
        vec![0x01, 0x01, 0x01],             // BOOLEAN not FF
        vec![0x80, 0x00],                   // empty, other class, tag 0
        vec![0x20, 0x00],                   // constructed "EOC"
        vec![0x00, 0x81, 0x00],             // long-form "EOC"
        vec![0x00, 0x01, 0x00],
        vec![0x03, 0x02, 0x01, 0x01],       // unused bit set
        vec![0x02, 0x02, 0x00, 0x01],       // padded INTEGER
        vec![0x1f, 0x00, 0x00],             // tag 0 in high form
    ]
}
pub const SHAPES: &[(u8, u32, usize)] = &[(0, 16, 0), (0, 17, 0), (0, 16, 10), (0, 17, 10), (2, 0, 10), (2, 1, 0), (0, 16, 2)];
pub const SHAPES_MIN: &[(u8, u32, usize)] = &[(0, 16, 0), (0, 17, 10), (2, 0, 10)];
pub const SHAPES_DER: &[(u8, u32, usize)] = &[(0, 16, 0), (0, 17, 0), (2, 0, 0)];

/// One well-formed element of every type (for use as children)
pub fn one_of_each() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for tag in 0..31u32 {
        if [0, 14, 15, 29, 8, 9, 11].contains(&tag) {
            continue;
        }
        for n in [0usize, 1, 2, 4, 11, 13, 15, 19] {
            if let Some(c) = good_content(tag, n) {
                if n > 4 && !(tag == 23 || tag == 24) {
                    continue;
                }
                v.push(tlv(0, cons_of(0, tag), tag, &c));
            }
        }
    }
    v.push(tlv(2, false, 0, b"ab"));
    v.push(tlv(2, true, 3, &[2, 1, 9]));
    v.push(tlv(1, true, 31, &[2, 1, 9]));
    v.push(tlv(3, false, 1000, &[7]));
    v
}

/// Elements of every type, bad ones included, placed as only, first, middle and last child of
/// every container shape, at nesting 1..=3
impl Space {
    /// the same space restricted to some of its shards
    pub fn only(self, f: impl Fn(usize) -> bool + Sync + 'static) -> Space {
        let (name, shards) = (self.name.clone(), self.shards);
        Space::new(name, shards, move |sh, e| {
            if f(sh) {
                self.each(sh, e)
            }
        })
    }
    /// just these inputs
    pub fn list(name: &str, items: Vec<Vec<u8>>) -> Space {
        Space::new(name.to_string(), items.len(), move |sh, e| {
            e(&items[sh]);
        })
    }
}
pub fn placed(items: Vec<Vec<u8>>, name: &str) -> Space {
    placed_w(items, name, false)
}
pub fn placed_w(items: Vec<Vec<u8>>, name: &str, light: bool) -> Space {
    let n = items.len();
    Space::new(format!("placed-{}", name), n, move |sh, e| {
        let x = &items[sh];
        if !e(x) {
            return;
        }
        let good = [2u8, 1, 5];
        for pos in 0..4 {
            let mut c = vec![];
            match pos {
                0 => c.extend_from_slice(x),
                1 => {
                    c.extend_from_slice(x);
                    c.extend_from_slice(&good);
                }
                2 => {
                    c.extend_from_slice(&good);
                    c.extend_from_slice(x);
                    c.extend_from_slice(&good);
                }
                _ => {
                    c.extend_from_slice(&good);
                    c.extend_from_slice(x);
                }
            }
            for &(cl, t, f) in SHAPES {
                let a = tlv_form(cl, true, t, &c, f);
                if !e(&a) {
                    return;
                }
                for &(cl2, t2, f2) in SHAPES {
                    let b = tlv_form(cl2, true, t2, &a, f2);
                    if !e(&b) {
                        return;
                    }
                    if light && pos % 2 == 0 {
                        continue;
                    }
                    let mut bb = good.to_vec();
                    bb.extend_from_slice(&b);
                    bb.extend_from_slice(&good);
                    for &(cl3, t3, f3) in SHAPES_MIN {
                        if light && f3 != 0 {
                            continue;
                        }
                        if !e(&tlv_form(cl3, true, t3, &bb, f3)) {
                            return;
                        }
                    }
                }
            }
        }
    })
}

/// Contents that break a rule of the type, with their tags (BER-legal or not)
pub fn bad_elements() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    // every type in constructed form, definite and indefinite
    for tag in 0..31u32 {
        v.push(tlv(0, true, tag, &[4, 1, 0x41]));
        v.push(tlv_indef(0, tag, &[4, 1, 0x41]));
        v.push(tlv(0, true, tag, &[]));
        v.push(tlv_indef(0, tag, &[]));
        v.push(tlv(0, false, tag, &[]));
        v.push(tlv(0, false, tag, &[0x80]));
        v.push(tlv(0, false, tag, &[0x00, 0x41]));
        v.push(tlv(0, false, tag, &[0xff, 0xff]));
        v.push(tlv(0, false, tag, &[0x08, 0x00]));
        v.push(tlv(0, false, tag, &[0x01, 0x01, 0x03]));
        // truncated inside the parent
        v.push(vec![tag as u8, 0x05, 0x01]);
        v.push(vec![tag as u8, 0x82, 0x00]);
    }
    for u in 0..=9u8 {
        for l in [0u8, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff] {
            v.push(tlv(0, false, 3, &[u, l]));
            v.push(tlv(0, false, 3, &[u, 0xff, l]));
        }
        v.push(tlv(0, false, 3, &[u]));
    }
    for b in 0..=255u8 {
        v.push(tlv(0, false, 1, &[b]));
        v.push(tlv(0, false, 2, &[0, b]));
        v.push(tlv(0, false, 2, &[0xff, b]));
    }
    v.push(tlv(0, false, 1, &[0xff, 0xff]));
    v.push(tlv(0, false, 2, &[0, 0, 1]));
    v.push(tlv(0, false, 2, &[0, 0, 0x80]));
    v.push(tlv(0, false, 2, &[0xff, 0xff, 1]));
    for t in [
        &b"2401010000Z"[..], b"240101000000Z", b"240101000000+0100", b"240101000000", b"2401010000", b"241301000000Z",
        b"240132000000Z", b"240101240000Z", b"240101006000Z", b"240101000060Z", b"24010100000aZ", b"2401010000-0000", b"Z", b"",
    ] {
        v.push(tlv(0, false, 23, t));
        let mut g = b"20".to_vec();
        g.extend_from_slice(t);
        v.push(tlv(0, false, 24, &g));
    }
    v.push(vec![0x30]);
    v.push(vec![0x30, 0x80]);
    v.push(vec![0x30, 0x80, 0x00]);
    v.push(vec![0x02, 0x80, 0x01, 0x00, 0x00]);
    v.push(vec![0xff]);
    v.push(vec![0x1f, 0xff]);
    v.push(vec![0x00]);
    v
}

/// Single-octet edits of seeds: every substitution (all 256 values at every position), every
/// deletion, every insertion of an octet of ALPHA
pub fn edits(name: &str, seeds: Vec<Vec<u8>>, insertions: bool) -> Space {
    let n = seeds.len();
    Space::new(format!("edits-{}", name), n, move |sh, e| {
        let s = &seeds[sh];
        let mut b = s.clone();
        for p in 0..s.len() {
            for x in 0..=255u8 {
                b[p] = x;
                if x != s[p] && !e(&b) {
                    return;
                }
            }
            b[p] = s[p];
        }
        for p in 0..s.len() {
            let mut d = s.clone();
            d.remove(p);
            if !e(&d) {
                return;
            }
        }
        if insertions {
            for p in 0..=s.len() {
                for &x in ALPHA {
                    let mut d = s.clone();
                    d.insert(p, x);
                    if !e(&d) {
                        return;
                    }
                }
            }
        }
    })
}

/// Every pair of octets of every seed replaced by every pair of telling octets
pub fn double_edits(name: &str, seeds: Vec<Vec<u8>>) -> Space {
    let n = seeds.len();
    Space::new(format!("double-edits-{}", name), n, move |sh, e| {
        let s = &seeds[sh];
        let mut b = s.clone();
        for p in 0..s.len() {
            for q in p + 1..s.len() {
                for &x in EDITS {
                    for &y in EDITS {
                        b[p] = x;
                        b[q] = y;
                        if !e(&b) {
                            return;
                        }
                    }
                }
                b[q] = s[q];
            }
            b[p] = s[p];
        }
    })
}
const EDITS: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0a, 0x0c, 0x0d, 0x17, 0x1e, 0x1f, 0x20, 0x22, 0x24, 0x30,
    0x31, 0x5a, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xa0, 0xa1, 0xbf, 0xc0, 0xe0, 0xff,
];

// ------------------------------------------------------------------ nesting chains
/// A chain of `depth` containers with per-level forms around `leaf`; `before`/`after` siblings at
/// every level
pub fn chain(
    depth: usize,
    shape: &dyn Fn(usize) -> (u8, u32, usize),
    leaf: &[u8],
    before: &[u8],
    after: &[u8],
) -> Vec<u8> {
    let mut cur = leaf.to_vec();
    for l in (0..depth).rev() {
        let (c, t, f) = shape(l);
        let mut body = before.to_vec();
        body.extend_from_slice(&cur);
        body.extend_from_slice(after);
        // the outermost siblings would not fit small limits otherwise: only inner levels get them
        cur = tlv_form(c, true, t, &body, f);
    }
    cur
}
/// The patterns of length forms along a chain
pub fn chain_patterns(depth: usize, all_positions: bool) -> Vec<(String, Vec<(u8, u32, usize)>)> {
    let mut v = vec![];
    let d = depth;
    let mk = |f: &dyn Fn(usize) -> (u8, u32, usize)| (0..d).map(f).collect::<Vec<_>>();
    v.push(("def-seq".into(), mk(&|_| (0, 16, 0))));
    v.push(("def-set".into(), mk(&|_| (0, 17, 0))));
    v.push(("def-mix".into(), mk(&|l| (0, 16 + (l % 2) as u32, 0))));
    v.push(("indef-seq".into(), mk(&|_| (0, 16, 10))));
    v.push(("indef-set".into(), mk(&|_| (0, 17, 10))));
    v.push(("alt-0".into(), mk(&|l| (0, 16, if l % 2 == 0 { 10 } else { 0 }))));
    v.push(("alt-1".into(), mk(&|l| (0, 17, if l % 2 == 1 { 10 } else { 0 }))));
    v.push(("alt-3".into(), mk(&|l| (0, 16, if l % 3 == 1 { 10 } else { 0 }))));
    if all_positions {
        for p in 0..d {
            v.push((format!("indef@{}", p), mk(&|l| (0, 16, if l == p { 10 } else { 0 }))));
            v.push((format!("def@{}", p), mk(&|l| (0, 17, if l == p { 0 } else { 10 }))));
            v.push((format!("indef<{}", p), mk(&|l| (0, 16, if l < p { 10 } else { 0 }))));
            v.push((format!("indef>{}", p), mk(&|l| (0, 16, if l > p { 10 } else { 0 }))));
        }
    }
    v
}
pub fn chains(max: usize, light: bool) -> Space {
    chains_w(max, light, false)
}
pub fn chains_w(max: usize, light: bool, plain: bool) -> Space {
    Space::new("nesting-chains", max + 1, move |d, e| {
        let every = !plain && (!light || d <= 8 || (d >= 48 && d <= 52));
        for (_, pat) in chain_patterns(d, every) {
            for leaf in [&[2u8, 1, 5][..], &[5, 0], &[], &[0x81, 0], &[4, 2, 0, 0]] {
                for (b, a) in [(&[][..], &[][..]), (&[5u8, 0][..], &[][..]), (&[][..], &[2u8, 1, 1][..])] {
                    if light && d > 8 && leaf.len() == 2 && !(a.is_empty() && b.is_empty()) {
                        continue;
                    }
                    if !e(&chain(d, &|l| pat[l], leaf, b, a)) {
                        return;
                    }
                }
            }
        }
        // opaque (context-specific) indefinite nesting inside and outside
        for p in 0..=d.min(12) {
            let x = chain(d, &|l| if l < p { (0, 16, 10) } else { (2, 0, 10) }, &[5, 0], &[], &[]);
            let y = chain(d, &|l| if l < p { (2, 0, 10) } else { (0, 16, 10) }, &[5, 0], &[], &[]);
            if !e(&x) || !e(&y) {
                return;
            }
        }
    })
}

/// Lists of n equal or varied children, definite and indefinite
pub fn widths(max: usize, big: &'static [usize]) -> Space {
    let mut ws: Vec<usize> = (0..=max).collect();
    ws.extend(big.iter().filter(|b| **b > max));
    Space::new("list-widths", ws.len(), move |sh, e| {
        let n = ws[sh];
        let kids: [&dyn Fn(usize) -> Vec<u8>; 4] = [
            &|i| vec![2, 1, (i % 128) as u8],
            &|_| vec![5, 0],
            &|i| match i % 5 {
                0 => vec![0x30, 0],
                1 => vec![0x31, 0x80, 0, 0],
                2 => vec![4, 1, i as u8],
                3 => vec![0xa0, 0x80, 5, 0, 0, 0],
                _ => vec![1, 1, 0xff],
            },
            &|_| vec![0x30, 3, 2, 1, 1],
        ];
        for k in kids {
            let mut c = vec![];
            for i in 0..n {
                c.extend_from_slice(&k(i));
            }
            for &(cl, t, f) in SHAPES {
                if f == 2 && c.len() > 65535 {
                    continue;
                }
                if !e(&tlv_form(cl, true, t, &c, f)) {
                    return;
                }
            }
        }
        // one bad child in the last place
        let mut c = vec![];
        for _ in 1..n {
            c.extend_from_slice(&[2, 1, 3]);
        }
        if n > 0 {
            c.extend_from_slice(&[1, 2, 0, 0]);
        }
        e(&tlv(0, true, 16, &c));
        e(&tlv_indef(0, 17, &c));
    })
}

// ------------------------------------------------------------------ integers
/// INTEGER contents: all of up to `full` octets; then, for every length up to `max`, every
/// leading run of 00 or FF followed by boundary octets
pub fn int_contents(full: usize, max: usize) -> Space {
    let fullshards = match full {
        1 => 1,
        2 => 256,
        _ => 65536,
    };
    Space::new(format!("integer-contents-{}", full), fullshards + max + 1, move |sh, e| {
        if sh < fullshards {
            if sh == 0 {
                e(&[]);
                for a in 0..=255u8 {
                    e(&[a]);
                }
            }
            if full >= 2 {
                if sh < 256 {
                    for y in 0..=255u8 {
                        if !e(&[sh as u8, y]) {
                            return;
                        }
                    }
                }
                if full >= 3 {
                    for y in 0..=255u8 {
                        if !e(&[(sh >> 8) as u8, sh as u8, y]) {
                            return;
                        }
                    }
                }
            }
            return;
        }
        let n = sh - fullshards;
        if n == 0 {
            return;
        }
        const B: [u8; 9] = [0x00, 0x01, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x5a];
        for lead in [0u8, 0xff] {
            for run in 0..=n {
                let rest = n - run;
                // first octet after the run, second, fill, last
                for &x in &B {
                    for &y in &B {
                        for &fill in &[0u8, 0xff, 0x55] {
                            for &last in &B {
                                let mut c = vec![lead; run];
                                for k in 0..rest {
                                    c.push(if k == 0 {
                                        x
                                    } else if k + 1 == rest {
                                        last
                                    } else if k == 1 {
                                        y
                                    } else {
                                        fill
                                    });
                                }
                                if !e(&c) {
                                    return;
                                }
                                if rest < 2 {
                                    break;
                                }
                            }
                            if rest < 4 {
                                break;
                            }
                        }
                        if rest < 3 {
                            break;
                        }
                    }
                    if rest < 1 {
                        break;
                    }
                }
            }
        }
    })
}

// ------------------------------------------------------------------ the standard suite
/// Spaces shared by the parsing properties. `weight` 0: cheap check (one or two parses per
/// input), 1: dozens of calls per input, 2: hundreds.
pub fn standard(ctx: &Ctx, weight: usize) -> Vec<Space> {
    let th = ctx.thorough();
    let mut v = vec![bytes_full(0), bytes_full(1), bytes_full(2)];
    if weight <= 1 || th {
        v.push(bytes_full(3));
    } else {
        // first octet x length x content, without the other length forms
        v.push(tlv_one());
    }
    if weight == 0 && th {
        v.push(bytes_full(4));
    }
    if weight == 0 || th {
        v.push(tlv_two((0..=255).collect()));
    } else {
        v.push(tlv_two(vec![0x01, 0x02, 0x03, 0x0a, 0x0c, 0x1e, 0x22, 0x30, 0x31]));
    }
    let a_max = match (weight, th) {
        (0, false) => 5,
        (1, false) => 4,
        (_, false) => 4,
        (0, true) => 7,
        (1, true) => 6,
        (_, true) => 5,
    };
    for n in 4..=a_max {
        v.push(bytes_over("structural-octets", ALPHA, n));
    }
    let e_max = match (weight, th) {
        (0, false) => 8,
        (1, false) => 7,
        (_, false) => 6,
        (0, true) => 10,
        (1, true) => 9,
        (_, true) => 8,
    };
    for n in 5..=e_max {
        v.push(bytes_over("nesting-octets", ALPHA_EOC, n));
    }
    let light = weight >= 2 && !th;
    v.push(length_sweep(if weight == 0 { 600 } else if light { 140 } else { 300 }, th, light));
    v.push(declared_lengths());
    v.push(tags(match (weight, th) {
        (_, true) => 70000,
        (0, false) => 40000,
        (1, false) => 17000,
        _ => 1200,
    }));
    v.push(chains(60, light));
    v.push(if light {
        widths(45, &[85, 86, 127, 128, 129, 255, 256, 257, 1000, 4096])
    } else {
        widths(if weight == 0 { 300 } else { 150 }, &[255, 256, 257, 300, 1000, 4096, 65536])
    });
    let mut lv = leaves_good();
    lv.extend(leaves_tricky());
    let n_t = match (th, weight) {
        (false, _) => 3,
        (true, 0 | 1) => 5,
        _ => 4,
    };
    let t = std::sync::Arc::new(Trees::new(lv, SHAPES.to_vec(), if n_t == 5 { 3 } else { 2 }));
    for n in 1..=n_t {
        v.push(trees_space("trees", t.clone(), n));
    }
    let n_s = match (th, weight) {
        (true, 0 | 1) => 8,
        (true, _) | (_, 0) => 6,
        _ => 5,
    };
    let t2 = std::sync::Arc::new(Trees::new(
        vec![vec![5, 0], vec![4, 2, 0, 0]],
        SHAPES_MIN.to_vec(),
        if n_s == 8 { 6 } else { 4 },
    ));
    for n in 4..=n_s {
        v.push(trees_space("small-trees", t2.clone(), n));
    }
    let mut items = one_of_each();
    items.extend(bad_elements());
    v.push(placed_w(items, "every-type", light));
    v.push(edits("trees", t.elems(2).to_vec(), true));
    v.push(edits("types", one_of_each(), true));
    let seeds3: Vec<Vec<u8>> = t2.elems(3).iter().step_by(if th { 1 } else { 3 }).cloned().collect();
    v.push(edits("small-trees", seeds3, false));
    if th && weight <= 1 {
        // (longer ones take quadratically many edits)
        let short = |l: Vec<Vec<u8>>| l.into_iter().filter(|x| x.len() <= if weight == 0 { 22 } else { 14 }).collect();
        v.push(double_edits("trees", short(t.elems(2).to_vec())));
        v.push(double_edits("types", short(one_of_each())));
        v.push(double_edits("small-trees", short(t2.elems(4).to_vec())));
    }
    v
}

/// every first octet with every 1-octet content and the forms 1, 81 01, 82 00 01
pub fn tlv_one() -> Space {
    Space::new("tlv-content-1", 256, |sh, e| {
        for c in 0..=255u8 {
            for h in [&[1u8][..], &[0x81, 1], &[0x82, 0, 1]] {
                let mut b = vec![sh as u8];
                b.extend_from_slice(h);
                b.push(c);
                if !e(&b) {
                    return;
                }
            }
        }
    })
}
