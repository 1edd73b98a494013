
// ---- appended by /verif/oidmacro.py to a copy of the macro crate ----
/// Enumerates identifiers, encodes each with the macro function and compares with a reference.
#[proc_macro]
pub fn verif_probe(_: TokenStream) -> TokenStream {
    verif_probe::run();
    TokenStream::new()
}

mod verif_probe {
    use num_bigint::BigUint;
    use proc_macro::{TokenStream, TokenTree};
    use std::fmt::Write as _;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    /// base-128, fewest groups, most significant first
    fn arc(v: &BigUint, out: &mut Vec<u8>) {
        let d = v.to_radix_be(128);
        let n = d.len();
        for (k, x) in d.into_iter().enumerate() {
            out.push(if k + 1 < n { x | 0x80 } else { x });
        }
    }
    fn expected(arcs: &[BigUint], rel: bool) -> Vec<u8> {
        let mut o = Vec::new();
        let mut rest = arcs;
        if !rel {
            let f = &arcs[0] * BigUint::from(40u32) + &arcs[1];
            arc(&f, &mut o);
            rest = &arcs[2..];
        }
        for a in rest {
            arc(a, &mut o);
        }
        o
    }
    /// octets -> arcs, independently of the encoders (the first two arcs are split again)
    fn decoded(mut b: &[u8], rel: bool) -> Option<Vec<BigUint>> {
        let mut r = Vec::new();
        if !rel {
            let (&f, t) = b.split_first()?;
            let a = (f / 40).min(2);
            r.push(BigUint::from(a));
            r.push(BigUint::from(f - 40 * a));
            b = t;
        }
        let mut v = BigUint::from(0u8);
        let mut open = false;
        for &x in b {
            v = (v << 7u32) + BigUint::from(x & 0x7f);
            open = x & 0x80 != 0;
            if !open {
                r.push(std::mem::take(&mut v));
            }
        }
        if open {
            return None;
        }
        Some(r)
    }
    fn number(s: &str) -> Option<u8> {
        let s = s.replace('_', "");
        let s = s.strip_suffix("u8").unwrap_or(&s).to_string();
        let (d, r) = match s.get(..2) {
            Some("0x") => (&s[2..], 16),
            Some("0b") => (&s[2..], 2),
            Some("0o") => (&s[2..], 8),
            _ => (&s[..], 10),
        };
        u8::from_str_radix(d, r).ok()
    }
    /// the octets of the generated expression: an array, or a reference to one
    fn octets(ts: TokenStream) -> Option<Vec<u8>> {
        let mut it = ts.into_iter().peekable();
        if let Some(TokenTree::Punct(p)) = it.peek() {
            if p.as_char() == '&' {
                it.next();
            }
        }
        let g = match it.next()? {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        if it.next().is_some() {
            return None;
        }
        let mut v = Vec::new();
        let mut comma = true;
        for t in g {
            match t {
                TokenTree::Punct(p) if p.as_char() == ',' && !comma => comma = true,
                TokenTree::Literal(l) if comma => {
                    v.push(number(&l.to_string())?);
                    comma = false;
                }
                _ => return None,
            }
        }
        Some(v)
    }

    struct Run {
        k: usize,
        n: usize,
        seen: usize,
        calls: u64,
        bits: u64,
        failed: Option<(String, String)>,
        unread: Option<String>,
        spaces: Vec<(String, u64)>,
        samples: Vec<String>,
    }
    impl Run {
        fn space(&mut self, s: &str) {
            self.spaces.push((s.to_string(), 0));
        }
        fn case(&mut self, arcs: &[BigUint], rel: bool) {
            self.seen += 1;
            if self.seen % self.n != self.k || self.failed.is_some() {
                return;
            }
            let mut s = String::from(if rel { "rel " } else { "" });
            for (k, a) in arcs.iter().enumerate() {
                let _ = write!(s, "{}{}", if k > 0 { "." } else { "" }, a);
            }
            self.calls += 1;
            self.spaces.last_mut().unwrap().1 += 1;
            let r = catch_unwind(AssertUnwindSafe(|| crate::encode_oid(s.parse::<TokenStream>().unwrap())));
            let got = match r {
                Ok(t) => match octets(t.clone()) {
                    Some(v) => v,
                    None => {
                        self.unread = Some(format!("{} -> {}", s, t));
                        return;
                    }
                },
                Err(_) => {
                    self.failed = Some((s, "the macro panics".into()));
                    return;
                }
            };
            self.bits += got.len() as u64;
            let want = expected(arcs, rel);
            if got != want {
                self.failed = Some((s, format!("octets {:02x?}, expected {:02x?}", got, want)));
            } else if decoded(&got, rel).as_deref() != Some(arcs) {
                self.failed = Some((s, format!("octets {:02x?} do not decode to it", got)));
            } else if self.samples.len() < 3 && self.calls % 97 == 5 {
                self.samples.push(format!("{} -> {:02x?}", s, got));
            }
        }
    }

    fn big(n: u64) -> BigUint {
        BigUint::from(n)
    }
    fn pow2(k: u32) -> BigUint {
        BigUint::from(1u8) << k
    }
    /// values around every bit length up to `max` bits, small ones, octet patterns
    fn values(max: u32, small: u64) -> Vec<BigUint> {
        let mut v: Vec<BigUint> = (0..=small).map(big).collect();
        for k in 3..=max {
            v.push(pow2(k) - big(1));
            v.push(pow2(k));
            v.push(pow2(k) + big(1));
            if k % 7 == 0 {
                v.push(pow2(k) - big(2));
                v.push(pow2(k) + pow2(k - 7) - big(1));
                v.push(pow2(k) - pow2(k - 7));
                v.push(pow2(k) + pow2(k / 2));
            }
            if k % 8 == 0 {
                v.push(pow2(k) - pow2(k - 8));
                v.push(pow2(k) + pow2(k - 8));
                v.push(pow2(k) - pow2(k - 1) + big(0x55));
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// big-endian octet strings: every length, every first octet of a set, patterned rest
    fn patterns(octets: usize, firsts: &[u8]) -> Vec<BigUint> {
        let mut v = Vec::new();
        for l in 1..=octets {
            for &f in firsts {
                for fill in [0u8, 1, 0x55, 0x7f, 0x80, 0xaa, 0xfe, 0xff] {
                    let mut b = vec![fill; l];
                    b[0] = f;
                    v.push(BigUint::from_bytes_be(&b));
                    // a ramp, so that every position is distinguishable
                    if fill == 1 {
                        for (k, x) in b.iter_mut().enumerate().skip(1) {
                            *x = (k as u8).wrapping_mul(37).wrapping_add(f);
                        }
                        v.push(BigUint::from_bytes_be(&b));
                    }
                }
            }
        }
        v
    }

    pub fn run() {
        let env = |k: &str| std::env::var(k).unwrap_or_default();
        let path = env("VERIF_PROBE_OUT");
        let thorough = env("VERIF_PROBE_TIER") == "thorough";
        std::panic::set_hook(Box::new(|_| {}));
        let mut r = Run {
            k: env("VERIF_PROBE_K").parse().unwrap(),
            n: env("VERIF_PROBE_N").parse().unwrap(),
            seen: 0,
            calls: 0,
            bits: 0,
            failed: None,
            unread: None,
            spaces: Vec::new(),
            samples: Vec::new(),
        };
        let one = env("VERIF_PROBE_ONE");
        if !one.is_empty() {
            let (rel, t) = match one.strip_prefix("rel ") {
                Some(t) => (true, t),
                None => (false, &one[..]),
            };
            let v: Vec<BigUint> = t.split('.').map(|x| x.parse().unwrap()).collect();
            r.space("one");
            r.case(&v, rel);
        } else {
            spaces(&mut r, thorough);
        }
        let mut o = String::new();
        let _ = writeln!(o, "calls {}\noctets {}", r.calls, r.bits);
        for (s, n) in &r.spaces {
            let _ = writeln!(o, "space {} {}", n, s);
        }
        for s in &r.samples {
            let _ = writeln!(o, "sample {}", s);
        }
        if let Some((a, b)) = &r.failed {
            let _ = writeln!(o, "failed {}\nwhy {}", a, b);
        }
        if let Some(s) = &r.unread {
            let _ = writeln!(o, "unread {}", s);
        }
        let _ = writeln!(o, "done");
        std::fs::write(path, o).unwrap();
    }

    fn spaces(r: &mut Run, thorough: bool) {
        let firsts: Vec<(u64, u64)> = (0..3).flat_map(|a| (0..40).map(move |b| (a, b))).collect();
        r.space("first two arcs alone");
        for &(a, b) in &firsts {
            r.case(&[big(a), big(b)], false);
        }
        let v = values(if thorough { 2100 } else { 1100 }, 300);
        r.space("one relative arc around every bit length");
        for x in &v {
            r.case(std::slice::from_ref(x), true);
        }
        r.space("all first two arcs, then one arc around every bit length up to 72 (thorough: all)");
        for x in v.iter().filter(|x| thorough || x.bits() <= 72) {
            for &(a, b) in &firsts {
                r.case(&[big(a), big(b), x.clone()], false);
            }
        }
        r.space("extreme first two arcs, then one arc around every bit length");
        for x in v.iter().filter(|x| x.bits() > 72) {
            for (a, b) in [(0, 0), (0, 39), (1, 2), (2, 0), (2, 39)] {
                r.case(&[big(a), big(b), x.clone()], false);
            }
        }
        r.space("one relative arc with patterned octets");
        let all: Vec<u8> = (1..=255).collect();
        for x in patterns(if thorough { 140 } else { 70 }, &all) {
            r.case(&[x], true);
        }
        r.space("the same after 1.3");
        let some = [1u8, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 0xaa, 0xfe, 255];
        for x in patterns(if thorough { 600 } else { 200 }, &some) {
            r.case(&[big(1), big(3), x], false);
        }
        r.space("one arc, whole range");
        for x in 0..=(if thorough { 1 << 22 } else { 1 << 18 }) {
            r.case(&[big(x)], true);
            r.case(&[big(2), big(39), big(x)], false);
        }
        let v2 = values(if thorough { 160 } else { 64 }, 2);
        r.space("pairs of arcs around every bit length, relative and absolute");
        for x in &v2 {
            for y in &v2 {
                r.case(&[x.clone(), y.clone()], true);
                r.case(&[big(1), big(39), x.clone(), y.clone()], false);
            }
        }
        let mut v3: Vec<BigUint> = [0u64, 1, 39, 40, 127, 128, 255, 256, 16383, 16384].iter().map(|x| big(*x)).collect();
        for k in [21u32, 28, 32, 35, 56, 63, 64, 70, 128] {
            v3.push(pow2(k) - big(1));
            v3.push(pow2(k));
        }
        r.space("triples of arcs");
        for x in &v3 {
            for y in &v3 {
                for z in &v3 {
                    r.case(&[x.clone(), y.clone(), z.clone()], true);
                }
            }
        }
        r.space("quadruples of arcs");
        let v4: Vec<BigUint> = v3.iter().step_by(if thorough { 1 } else { 3 }).cloned().collect();
        let n = v4.len();
        for m in 0..n * n * n * n {
            let t: Vec<BigUint> = [m % n, m / n % n, m / n / n % n, m / n / n / n].iter().map(|k| v4[*k].clone()).collect();
            r.case(&t, true);
            let mut u = vec![big(0), big(39)];
            u.extend(t);
            r.case(&u, false);
        }
        r.space("many arcs: a different arc at each position");
        for l in 1..=130usize {
            for base in &v3 {
                for other in [big(0), big(128), pow2(64)] {
                    for p in [0, 1, l / 2, l - 1] {
                        if p >= l {
                            continue;
                        }
                        let mut t = vec![base.clone(); l];
                        t[p] = other.clone();
                        r.case(&t, true);
                    }
                }
            }
        }
    }
}
