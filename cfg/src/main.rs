//! C20: digests of everything the library answers on enumerated inputs, to be compared between
//! builds with different features and profiles.
#![allow(dead_code)]
#[path = "../../mc/src/cmp.rs"]
mod cmp;
#[path = "../../mc/src/entry.rs"]
mod entry;
#[path = "../../mc/src/model.rs"]
mod model;
#[path = "../../mc/src/runner.rs"]
mod runner;
#[path = "../../mc/src/spaces.rs"]
mod spaces;
use der_parser::ber::*;
use runner::*;
use spaces::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

/// sections of operations that exist only with a feature
const SECTIONS: &[&str] = &[
    "base",
    #[cfg(feature = "as_bitvec")]
    "as_bitvec",
    #[cfg(feature = "bigint")]
    "bigint",
    #[cfg(feature = "serialize")]
    "serialize",
];
const NSEC: usize = 4;
fn slot(s: &str) -> usize {
    ["base", "as_bitvec", "bigint", "serialize"].iter().position(|x| *x == s).unwrap()
}

struct H(u64);
impl Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.as_bytes().chunks(8) {
            let mut x = 0u64;
            for b in c {
                x = x << 8 | *b as u64;
            }
            self.0 = (self.0 ^ x ^ (c.len() as u64) << 59).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        }
        Ok(())
    }
}
/// where results go: a digest per section, or text
trait Sink {
    fn put(&mut self, sec: usize, what: &str, v: &dyn std::fmt::Debug);
}
impl Sink for [H; NSEC] {
    fn put(&mut self, sec: usize, _: &str, v: &dyn std::fmt::Debug) {
        let _ = write!(self[sec], "{:?}", v);
    }
}
impl Sink for Vec<(usize, String)> {
    fn put(&mut self, sec: usize, what: &str, v: &dyn std::fmt::Debug) {
        self.push((sec, format!("{}: {:?}", what, v)));
    }
}

#[derive(Default, Debug)]
struct Seen(Vec<(u32, usize)>);
impl<'a> Visit<'a> for Seen {
    fn visit_ber(&mut self, o: &'_ BerObject<'a>, d: usize) {
        self.0.push((o.tag().0, d))
    }
}

fn object(o: &BerObject, s: &mut dyn Sink) {
    s.put(0, "object", o);
    s.put(0, "as_u64", &o.as_u64());
    s.put(0, "as_u32", &o.as_u32());
    s.put(0, "as_i64", &o.as_i64());
    s.put(0, "as_i32", &o.as_i32());
    s.put(0, "as_bool", &o.as_bool());
    s.put(0, "as_slice", &o.as_slice());
    s.put(0, "as_str", &o.as_str());
    s.put(0, "as_oid", &o.as_oid());
    s.put(0, "as_sequence", &o.as_sequence().map(|v| v.len()));
    s.put(0, "as_set", &o.as_set().map(|v| v.len()));
    if let Ok(b) = o.as_bitstring() {
        // every bit of short strings; of long ones the ends, and everything around the powers of two
        let n = b.data.len() * 8;
        let at: Vec<usize> = if n <= 400 {
            (0..n + 20).collect()
        } else {
            (0..70).chain(n - 70..n + 70).chain((6..31).flat_map(|k| (0..3).map(move |j| (1 << k) - 1 + j))).collect()
        };
        s.put(0, "is_set", &at.iter().map(|k| b.is_set(*k)).collect::<Vec<_>>());
        s.put(0, "is_set far behind", &(31..usize::BITS).any(|k| (0..3).any(|j| b.is_set((1 << k) - 1 + j))));
        s.put(0, "is_set", &[usize::MAX, usize::MAX - 7].map(|k| b.is_set(k)));
    }
    if let BerObjectContent::Sequence(v) | BerObjectContent::Set(v) = &o.content {
        let n = v.len();
        for k in [0, 1, n / 2, n.wrapping_sub(1)] {
            if k < n {
                s.put(0, "index", &(&o[k] == &v[k], o[k].header.tag()));
            }
        }
        s.put(0, "walk", &o.ref_iter().map(|x| x.header.tag().0 as u64).fold(7u64, |a, t| a.wrapping_mul(31).wrapping_add(t)));
        s.put(0, "walk", &o.clone().into_iter().map(|x| x.header.tag().0 as u64).fold(7u64, |a, t| a.wrapping_mul(31).wrapping_add(t)));
    }
    s.put(0, "as_tagged", &o.as_tagged().map(|t| (t.0, t.1)));
    s.put(0, "as_optional", &o.as_optional().map(|x| x.is_some()));
    s.put(0, "as_slice of content", &o.content.as_slice());
    s.put(0, "assertions", &(o.assert_class(Class::Universal), o.assert_tag(Tag::Integer), o.assert_constructed(), o.assert_primitive()));
    s.put(0, "from_obj", &(BerObject::from_obj(o.content.clone()) == *o));
    s.put(0, "ref_iter", &o.ref_iter().count());
    s.put(0, "into_iter", &o.clone().into_iter().count());
    s.put(0, "clone", &(o.clone() == *o));
    let mut p = o.as_pretty(0, 2);
    s.put(0, "pretty", &p);
    p.unset_flag(PrettyPrinterFlag::Recursive);
    p.set_flag(PrettyPrinterFlag::ShowHeader);
    s.put(0, "pretty+header", &p);
    let mut v = Seen::default();
    v.run(o);
    s.put(0, "visit", &v);
    #[cfg(feature = "as_bitvec")]
    {
        s.put(1, "as_bitslice", &o.as_bitslice().map(|b| b.iter().map(|x| *x).collect::<Vec<bool>>()));
        s.put(1, "as_bitstring.as_bitslice", &o.as_bitstring_ref().map(|b| b.as_bitslice().map(|b| b.iter().map(|x| *x).collect::<Vec<bool>>())));
    }
    #[cfg(feature = "bigint")]
    {
        s.put(2, "as_bigint", &o.as_bigint());
        s.put(2, "as_biguint", &o.as_biguint());
    }
    #[cfg(feature = "serialize")]
    s.put(3, "to_vec", &o.to_vec().map_err(|_| ()));
}

fn answers(i: &[u8], every: bool, s: &mut dyn Sink) -> u64 {
    let mut n = 0;
    match parse_ber(i) {
        Ok((r, o)) => {
            s.put(0, "parse_ber remainder", &r.len());
            object(&o, s);
            n += 20;
        }
        r => s.put(0, "parse_ber", &r),
    }
    match der_parser::der::parse_der(i) {
        Ok((r, o)) => {
            s.put(0, "parse_der remainder", &r.len());
            s.put(0, "parse_der", &o)
        }
        r => s.put(0, "parse_der", &r),
    }
    n += 2;
    if every {
        let t = entry::tags_for(i);
        let _ = entry::all(i, &t, &[0, 2, 50], &mut |name, r| {
            n += 1;
            s.put(0, name, &r);
            Ok(())
        });
    }
    n
}
fn guarded(i: &[u8], every: bool, s: &mut dyn Sink) -> u64 {
    let p: *mut dyn Sink = s;
    catch_unwind(AssertUnwindSafe(|| answers(i, every, unsafe { &mut *p }))).unwrap_or_else(|_| {
        unsafe { (*p).put(0, "PANIC", &"panic") };
        1
    })
}

fn list(level: usize) -> Vec<(Space, bool)> {
    let mut v: Vec<(Space, bool)> = vec![];
    let mut both = |mut s: Space, every: bool| {
        s.name += if every { "/every-parser" } else { "/generic" };
        v.push((s, every))
    };
    both(bytes_full(0), true);
    both(bytes_full(1), true);
    both(bytes_full(2), level > 0);
    both(tlv_one(), level > 0);
    both(bytes_over("structural-octets", ALPHA, 3), true);
    both(bytes_over("nesting-octets", ALPHA_EOC, 5), true);
    let mut items = one_of_each();
    items.extend(bad_elements());
    let it = items.clone();
    both(
        Space::new("single-elements", items.len(), move |sh, e| {
            e(&it[sh]);
            e(&it[sh][..it[sh].len() - 1]);
        }),
        true,
    );
    let lv: Vec<Vec<u8>> = leaves_good().into_iter().chain(leaves_tricky()).collect();
    let t = std::sync::Arc::new(Trees::new(lv, SHAPES.to_vec(), 2));
    both(trees_space("trees", t.clone(), 1), true);
    both(trees_space("trees", t.clone(), 2), true);
    both(
        Space::new("long-integers", 40, |n, e| {
            for t in [2u32, 3, 4, 10, 6, 13] {
                for f in [0u8, 1, 0x7f, 0x80, 0xff] {
                    for l in [0u8, 0x55, 0xff] {
                        let mut c = vec![l; n];
                        if n > 0 {
                            c[0] = f;
                        }
                        if !e(&tlv(0, false, t, &c)) {
                            return;
                        }
                    }
                }
            }
        }),
        true,
    );
    both(
        Space::new("deep", 60, |d, e| {
            for (_, pat) in chain_patterns(d, false) {
                for leaf in [&[2u8, 1, 5][..], &[]] {
                    if !e(&chain(d, &|l| pat[l], leaf, &[], &[])) {
                        return;
                    }
                }
            }
        }),
        level > 0,
    );
    both(declared_lengths(), false);
    both(
        Space::new("long-contents", 12 * 37, |sh, e| {
            let n = [65537usize, 4097, 1025, 1000, 513, 257, 256, 255, 129, 128, 127, 64][sh / 37];
            let k = sh % 37;
            if k < 31 {
                let tag = k as u32;
                if let Some(c) = good_content(tag, n) {
                    let _ = e(&tlv(0, cons_of(0, tag), tag, &c)) && e(&tlv(0, true, 16, &tlv(0, cons_of(0, tag), tag, &c)));
                }
            } else if k < 36 {
                let b = [[3u8, 0, 0xa5], [3, 7, 0xff], [4, 0, 0x61], [2, 0, 0x80], [10, 0, 0x80]][k - 31];
                let mut c = vec![b[2]; n];
                c[0] = b[1];
                e(&tlv(0, false, b[0] as u32, &c));
            } else {
                e(&tlv_indef(2, 1, &tlv(0, false, 4, &vec![0; n])));
                e(&tlv(1, true, 1, &tlv(0, true, 17, &vec![5, 0].repeat(n))));
                e(&tlv_indef(0, 17, &vec![2, 1, 9].repeat(n)));
            }
        }),
        level > 0,
    );
    if level == 0 {
        return v;
    }
    let mut both = |mut s: Space, every: bool| {
        s.name += if every { "/every-parser" } else { "/generic" };
        v.push((s, every))
    };
    both(tlv_two(vec![0x01, 0x02, 0x03, 0x0a, 0x0c, 0x1e, 0x22, 0x30, 0x31]), false);
    both(bytes_over("structural-octets", ALPHA, 4), true);
    both(bytes_over("nesting-octets", ALPHA_EOC, 6), true);
    both(trees_space("trees", t.clone(), 3), true);
    both(tags(if level > 1 { 17000 } else { 300 }), level > 1);
    both(chains(60, true), false);
    both(length_sweep(if level > 1 { 300 } else { 140 }, false, true), level > 1);
    both(placed_w(items.clone(), "every-type", true), level > 1);
    both(edits("types", one_of_each(), true), true);
    both(edits("trees", t.elems(2).to_vec(), true), level > 1);
    both(int_contents(2, 10).wrap2(|c| tlv(0, false, 2, c)), false);
    if level > 1 {
        let mut longer = int_contents(2, 18).wrap2(|c| tlv(0, false, 2, c));
        longer.name += "(to-18-octets)";
        both(longer, false);
        both(bytes_over("nesting-octets", ALPHA_EOC, 7), true);
        both(bytes_over("structural-octets", ALPHA, 5), false);
        both(bytes_full(3), false);
    }
    v
}
/// the answers one by one, as digests; those that are refusals are marked
fn tokens(i: &[u8], every: bool) -> String {
    let mut t: Vec<(usize, String)> = vec![];
    guarded(i, every, &mut t);
    let mut o = String::new();
    for (s, l) in t {
        let mut h = H(s as u64);
        let _ = h.write_str(&l);
        let _ = write!(o, " {:x}{}", h.0, if l.contains("PANIC") { "!" } else if l.contains("Err(") { "e" } else { "" });
    }
    o
}
/// one line of answers for a line of a file of inputs
fn line(l: &str) -> String {
    let i = unhex(&l[2..]);
    if l.starts_with("H ") {
        return tokens(&i, true);
    }
    let mut h = [H(1), H(2), H(3), H(4)];
    let c = guarded(&i, l.starts_with("E "), &mut h);
    format!("{} {:x} {:x} {:x} {:x}", c, h[0].0, h[1].0, h[2].0, h[3].0)
}
/// the inputs for other machines (C25): "E" lines through every entry point, "G" lines through the generic ones,
/// "H" lines (a declared length that does not fit into 31 bits: a small machine may refuse more) answer by answer
fn emit(level: &str) {
    use std::io::Write;
    let mut seen = std::collections::HashSet::new();
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let big = |i: &[u8]| {
        (0..i.len()).any(|p| {
            let k = (i[p] & 0x7f) as usize;
            i[p] >= 0x84 && p + k < i.len() && i[p + 1..=p + k].iter().fold(0u64, |a, b| a.saturating_mul(256).saturating_add(*b as u64)) >= 1 << 31
        })
    };
    let lv: Vec<Vec<u8>> = leaves_good().into_iter().chain(leaves_tricky()).collect();
    let t = std::sync::Arc::new(Trees::new(lv, SHAPES.to_vec(), 2));
    let items: Vec<Vec<u8>> = one_of_each().into_iter().chain(bad_elements()).collect();
    let least = level == "interpreted-least";
    let tiny = least || level == "interpreted";
    let deep = level == "deep";
    let mut v: Vec<(Space, bool)> = vec![];
    let it: Vec<Vec<u8>> = one_of_each().into_iter().step_by(if least { 2 } else { 1 }).collect();
    v.push((Space::new("types", it.len(), move |sh, e| { e(&it[sh]); }), true));
    let it: Vec<Vec<u8>> = bad_elements().into_iter().step_by(if least { 9 } else { 1 }).collect();
    v.push((Space::new("bad-elements", it.len(), move |sh, e| { e(&it[sh]); }), !tiny));
    let ints = move |e: &mut Emit| {
        for n in if least { vec![1usize, 2, 3, 4, 5, 8, 9, 16, 17] } else { (0..=18).collect() } {
            for f in [0u8, 1, 0x7f, 0x80, 0xff] {
                for s in if least { vec![0x12u8] } else { vec![0u8, 0x7f, 0x80, 0xff] } {
                    for l in if least { vec![1u8] } else { vec![0u8, 1, 0xff] } {
                        let mut c: Vec<u8> = (0..n).map(|k| if f & 1 == 0 { s } else { s ^ k as u8 }).collect();
                        if n > 0 {
                            c[n - 1] ^= l;
                            c[0] = f;
                        }
                        if !e(&tlv(0, false, 2, &c)) || n < 6 && !e(&tlv(0, false, 10, &c)) {
                            return;
                        }
                    }
                }
            }
        }
    };
    v.push((Space::new("integers", 1, move |_, e| ints(e)), false));
    v.push((
        Space::new("contents", 1, move |_, e| {
            for n in if least { vec![2usize, 8] } else if tiny { vec![1usize, 3, 8] } else { vec![0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 129] } {
                for t in 0..31u32 {
                    for f in if least { vec![1u8] } else if tiny { vec![0u8, 7] } else { vec![0u8, 1, 7, 0x20, 0x31, 0x7f, 0x80, 0xff] } {
                        for l in if tiny { vec![0u8, 0x41] } else { vec![0u8, 0x30, 0x41, 0x80, 0xff] } {
                            let mut c = vec![l; n];
                            if n > 0 {
                                c[0] = f;
                            }
                            e(&tlv(0, cons_of(0, t), t, &c));
                        }
                    }
                    if let Some(c) = good_content(t, n) {
                        e(&tlv(0, cons_of(0, t), t, &c));
                    }
                }
            }
        }),
        false,
    ));
    v.push((
        Space::new("lengths", 1, move |_, e| {
            for n in [0usize, 1, 127, 128, 200, 255, 256, 300, 65535, 65536] {
                for k in 1..=9 {
                    if tiny && n > 300 || least && k > 3 || k < 8 && n >> (8 * k) != 0 {
                        continue;
                    }
                    let mut o = vec![4, 0x80 | k as u8];
                    o.extend((0..k).rev().map(|j| if j < 8 { (n >> (8 * j)) as u8 } else { 0 }));
                    o.extend(vec![7u8; n]);
                    e(&o);
                    o.pop();
                    e(&o);
                }
            }
            for d in [1, 2, 49, 50, 51] {
                e(&chain(d, &|_| (0, 16, 0), &[2, 1, 1], &[], &[]));
                e(&chain(d, &|l| (0, 16 + (l % 2) as u32, 10), &[2, 1, 1], &[], &[]));
            }
            for t in (0..40).chain((5..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1])).chain([u32::MAX]) {
                for c in if least { 0..1 } else { 0..4 } {
                    e(&tlv(c, t % 3 == 0, t, if t % 3 == 0 { &[2, 1, 7] } else { &[0x80] }));
                }
            }
        }),
        false,
    ));
    if !tiny {
        v.push((trees_space("trees", t.clone(), 1), true));
        v.push((trees_space("trees", t.clone(), 2), true));
        v.push((Space::new("cut-elements", items.len(), move |sh, e| { e(&items[sh][..items[sh].len() - 1]); }), true));
        v.push((bytes_full(1), true));
        v.push((bytes_full(2), deep));
        v.push((bytes_over("structural-octets", ALPHA, 3), true));
        v.push((bytes_over("nesting-octets", ALPHA_EOC, 5), deep));
        v.push((int_contents(2, 20).wrap2(|c| tlv(0, false, 2, c)), false));
        v.push((tags(300), false));
        v.push((tlv_one(), false));
        v.push((edits("types", one_of_each(), false), deep));
        let d = declared_lengths();
        let first: &[usize] = if deep { &[0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0a, 0x0c, 0x1e, 0x1f, 0x24, 0x30, 0x31, 0x3f, 0x80, 0xa0, 0xbf, 0xff] } else { &[0x02, 0x03, 0x30, 0xa0] };
        v.push((Space::new("declared-length", first.len(), move |sh, e| d.each(first[sh], e)), false));
    }
    if deep {
        v.push((trees_space("trees", t, 3), true));
        v.push((bytes_over("structural-octets", ALPHA, 4), true));
        v.push((bytes_over("nesting-octets", ALPHA_EOC, 6), false));
        v.push((bytes_full(3), false));
    }
    for (sp, every) in v {
        let mut n = 0;
        for sh in 0..sp.shards {
            sp.each(sh, &mut |i| {
                if !(tiny && big(i)) && seen.insert(i.to_vec()) {
                    n += 1;
                    let _ = writeln!(out, "{} {}", if big(i) { "H" } else if every { "E" } else { "G" }, hex(i));
                }
                true
            });
        }
        eprintln!("space {} {}", sp.name.replace(' ', "-"), n);
    }
}
impl Space {
    fn wrap2(self, f: impl Fn(&[u8]) -> Vec<u8> + Sync + 'static) -> Space {
        let name = format!("{}*", self.name);
        let shards = self.shards;
        Space::new(name, shards, move |sh, e| {
            self.each(sh, &mut |x| e(&f(x)));
        })
    }
}

/// what a host without files calls: put a line in place, get its answers
#[cfg(target_arch = "wasm32")]
mod host {
    use super::*;
    static TEXT: Mutex<Vec<u8>> = Mutex::new(vec![]);
    #[no_mangle]
    pub extern "C" fn input(n: usize) -> *mut u8 {
        let mut v = TEXT.lock().unwrap();
        *v = vec![0; n];
        v.as_mut_ptr()
    }
    #[no_mangle]
    pub extern "C" fn answer() -> *const u8 {
        let mut v = TEXT.lock().unwrap();
        let r = line(std::str::from_utf8(&v).unwrap());
        *v = r.into_bytes();
        v.as_ptr()
    }
    #[no_mangle]
    pub extern "C" fn text() -> *const u8 {
        let mut v = TEXT.lock().unwrap();
        let mut t: Vec<(usize, String)> = vec![];
        guarded(&unhex(std::str::from_utf8(&v).unwrap()), true, &mut t);
        v.clear();
        for (s, l) in t {
            v.extend(format!("{} {}\n", ["base", "as_bitvec", "bigint", "serialize"][s], l.replace('\n', "\\n")).bytes());
        }
        v.as_ptr()
    }
    #[no_mangle]
    pub extern "C" fn len() -> usize {
        TEXT.lock().unwrap().len()
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|p| a[p + 1].clone());
    let new = || [H(1), H(2), H(3), H(4)];
    if let Some(hexs) = get("--input-file").map(|f| std::fs::read_to_string(f).unwrap()) {
        std::panic::set_hook(Box::new(|_| {}));
        let mut t: Vec<(usize, String)> = vec![];
        guarded(&unhex(hexs.trim()), true, &mut t);
        for (s, l) in t {
            println!("{} {}", ["base", "as_bitvec", "bigint", "serialize"][s], l.replace('\n', "\\n"));
        }
        return;
    }
    if a.iter().any(|x| x == "--emit") {
        emit(&get("--emit").unwrap());
        return;
    }
    if let Some(f) = get("--file") {
        // lines k, k+n, k+2n... of a file of inputs
        std::panic::set_hook(Box::new(|_| {}));
        let (k, n): (usize, usize) = (get("--from").unwrap().parse().unwrap(), get("--step").unwrap().parse().unwrap());
        for (j, l) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            if j % n == k {
                println!("{} {}", j, line(l));
            }
        }
        println!("done");
        return;
    }
    let level: usize = get("--level").map(|x| x.parse().unwrap()).unwrap_or(0);
    let only = get("--space");
    let dump: Option<usize> = get("--shard").map(|x| x.parse().unwrap());
    let ctx = Ctx::new("C20", Tier::Quick, 1, &get("--journal").unwrap_or("/tmp/cfg-journal".into()), vec![]);
    println!("sections {}", SECTIONS.join(" "));
    for (sp, every) in list(level) {
        if only.as_ref().map(|o| *o != sp.name).unwrap_or(false) {
            continue;
        }
        if let Some(k) = dump {
            // per-input digests of one shard
            sp.each(k, &mut |i| {
                let mut h = new();
                guarded(i, every, &mut h);
                println!("input {} {:x} {:x} {:x} {:x}", hex(i), h[0].0, h[1].0, h[2].0, h[3].0);
                true
            });
            continue;
        }
        let res: Mutex<Vec<[u64; NSEC]>> = Mutex::new(vec![[0; NSEC]; sp.shards]);
        ctx.par(&sp.name, sp.shards, |sh, w| {
            let mut h = new();
            sp.each(sh, &mut |i| {
                w.case(i, "", |w| {
                    w.calls += guarded(i, every, &mut h);
                    Ok(())
                })
            });
            res.lock().unwrap()[sh] = [h[0].0, h[1].0, h[2].0, h[3].0];
        });
        let r = res.into_inner().unwrap();
        for s in SECTIONS {
            let k = slot(s);
            let mut d = H(7);
            for x in &r {
                let _ = write!(d, "{:x}", x[k]);
            }
            println!("digest {} {} {:x}", sp.name, s, d.0);
            if only.is_some() {
                for (n, x) in r.iter().enumerate() {
                    println!("shard {} {} {} {:x}", sp.name, s, n, x[k]);
                }
            }
        }
    }
    println!("report {}", ctx.report(None));
}
