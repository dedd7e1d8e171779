//! Watches the assumptions that the contracts make about numbers and characters (contracts/floats.vx, geometry.vx,
//! strs.vx, tool.vx): every character, and special and random numbers. `vh axioms all`, run by setup.sh.
use crate::util::Rng;
use std::cmp::Ordering;

fn same(a: f64, b: f64) -> bool { (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits() }
fn same32(a: f32, b: f32) -> bool { (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits() }
fn rev(o: Option<Ordering>) -> Option<Ordering> { o.map(|x| x.reverse()) }
/// the order key of the contracts: the infinities at the ends, both zeros the same
fn key(a: f64) -> i128 { let b = a.to_bits() as i64; if b >= 0 { b as i128 } else { -((b & i64::MAX) as i128) } }

fn chars() {
    for c in char::MIN..=char::MAX {
        let u = c as u32;
        let ws = (9..=13).contains(&u) || u == 32 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000..=0x200a).contains(&u)
            || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000;
        assert_eq!(c.is_whitespace(), ws, "white space: {c:?}");
        assert_eq!(c.is_ascii_whitespace(), [9, 10, 12, 13, 32].contains(&u), "ascii white space: {c:?}");
        assert_eq!(c.len_utf8(), if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }, "width: {c:?}");
        if !c.is_ascii_uppercase() { assert_eq!(c.to_ascii_lowercase(), c); }
    }
    assert_eq!("svg".to_ascii_lowercase(), "svg");
}

fn pair64(a: f64, b: f64) {
    assert_eq!(a == b, a.partial_cmp(&b) == Some(Ordering::Equal), "{a} {b}");
    assert_eq!(a.partial_cmp(&b), rev(b.partial_cmp(&a)), "{a} {b}");
    assert!(same(a + b, b + a) && same(a * b, b * a), "{a} {b}");
    assert!(same(a - b, a + -b), "{a} {b}");
    assert!(same(std::hint::black_box(a).powi(2), a * a), "{a}");
    if a.is_nan() { assert!(same(a.min(b), b) && same(a.max(b), b)); }
    else if b.is_nan() { assert!(same(a.min(b), a) && same(a.max(b), a)); }
    else {
        assert_eq!(a.partial_cmp(&b), Some(key(a).cmp(&key(b))), "{a} {b}");
        let (lo, hi) = (a.min(b), a.max(b));
        assert!((same(lo, a) || same(lo, b)) && key(lo) <= key(a) && key(lo) <= key(b), "{a} {b}");
        assert!((same(hi, a) || same(hi, b)) && key(hi) >= key(a) && key(hi) >= key(b), "{a} {b}");
    }
    if a.is_finite() { assert!(key(f64::NEG_INFINITY) < key(a) && key(a) < key(f64::INFINITY)); }
    let (s, c) = a.sin_cos();
    assert!(same(s, a.sin()) && same(c, a.cos()), "{a}");
    // a printed number reads back as itself
    if !a.is_nan() { assert!(same(a.to_string().parse::<f64>().unwrap(), a), "{a}"); }
}

fn pair32(a: f32, b: f32) {
    assert_eq!(a == b, a.partial_cmp(&b) == Some(Ordering::Equal), "{a} {b}");
    assert_eq!(a.partial_cmp(&b), rev(b.partial_cmp(&a)), "{a} {b}");
    if a.is_finite() && b.is_finite() {
        let (x, y) = (a as f64, b as f64);
        assert_eq!(a.partial_cmp(&b), x.partial_cmp(&y));
        if x >= 0.0 && y >= 0.0 && x + y <= 16777217.0 {
            let (r, u) = ((a + b) as f64, 1.0 / 16777216.0);
            // (the largest relative error is u/(1+u), so the rounding of these f64 operations does not matter)
            assert!((a + b).is_finite() && (x + y) * (1.0 - u) <= r && r <= (x + y) * (1.0 + u), "{a} {b}");
        }
    }
    if a.is_nan() { assert!(same32(a.max(b), b)); }
    if !a.is_nan() { assert!(same32(a.to_string().parse::<f32>().unwrap(), a), "{a}"); }
}

/// The text functions, as the contracts describe them: sequences of characters (contracts/strs.vx, plants.vx, rules.vx, svg.vx).
fn text(s: &str) {
    let v: Vec<char> = s.chars().collect();
    let s2 = |a: &[char]| a.iter().collect::<String>();
    let ws = |c: char| { let u = c as u32; (9..=13).contains(&u) || u == 32 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000..=0x200a).contains(&u) || matches!(u, 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000) };
    let aws = |c: char| matches!(c as u32, 9 | 10 | 12 | 13 | 32);
    // vx_trimmed
    let (mut a, mut b) = (0, v.len());
    while a < b && ws(v[a]) { a += 1; }
    while a < b && ws(v[b - 1]) { b -= 1; }
    assert_eq!(s.trim(), s2(&v[a..b]), "trim {s:?}");
    // upto, vx_split_at
    for c in ['#', '=', ' ', 'x', '∂'] {
        let k = v.iter().position(|d| *d == c);
        let parts: Vec<String> = v.split(|d| *d == c).map(s2).collect();
        assert_eq!(s.split(c).collect::<Vec<_>>(), parts, "split {s:?}");
        assert_eq!(s.contains(c), k.is_some());
        assert_eq!(s.starts_with(c), v.first() == Some(&c));
        let two: Vec<String> = match k { Some(k) => vec![s2(&v[..k]), s2(&v[k + 1..])], None => vec![s.to_string()] };
        assert_eq!(s.splitn(2, c).collect::<Vec<_>>(), two, "splitn {s:?}");
        assert_eq!(s.split_once(c).map(|(a, b)| vec![a.to_string(), b.to_string()]), if k.is_some() { Some(two) } else { None });
        let off = k.map(|k| s2(&v[..k]).len());
        assert_eq!(s.find(c), off, "find {s:?}");
    }
    // lines_of
    let mut lines: Vec<String> = vec![];
    let mut r = &v[..];
    while !r.is_empty() {
        match r.iter().position(|c| *c == '\n') {
            Some(n) => { lines.push(if n > 0 && r[n - 1] == '\r' { s2(&r[..n - 1]) } else { s2(&r[..n]) }); r = &r[n + 1..]; }
            None => { lines.push(s2(r)); r = &[]; }
        }
    }
    assert_eq!(s.lines().collect::<Vec<_>>(), lines, "lines {s:?}");
    // words
    let words: Vec<String> = v.split(|c| aws(*c)).filter(|w| !w.is_empty()).map(s2).collect();
    assert_eq!(s.split_ascii_whitespace().collect::<Vec<_>>(), words, "words {s:?}");
    // offsets, slices
    let idx: Vec<(usize, char)> = (0..v.len()).map(|i| (s2(&v[..i]).len(), v[i])).collect();
    assert_eq!(s.char_indices().collect::<Vec<_>>(), idx);
    assert_eq!(s.len(), v.iter().map(|c| { let u = *c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }).sum::<usize>());
    for (i, (a, _)) in idx.iter().enumerate() {
        assert_eq!(&s[*a..], s2(&v[i..])); assert_eq!(&s[..*a], s2(&v[..i]));
        for (j, (b, _)) in idx.iter().enumerate().skip(i) { assert_eq!(&s[*a..*b], s2(&v[i..j])); }
    }
    // patterns
    for p in ["n", "=", "->", "##", "", "∂", " x"] {
        let q: Vec<char> = p.chars().collect();
        let at = (0..=v.len()).find(|i| i + q.len() <= v.len() && v[*i..i + q.len()] == q[..]);
        assert_eq!(s.contains(p), at.is_some(), "contains {s:?} {p:?}");
        assert_eq!(s.find(p), at.map(|i| s2(&v[..i]).len()), "find {s:?} {p:?}");
        assert_eq!(s.starts_with(p), at == Some(0));
        assert_eq!(s.strip_prefix(p), if at == Some(0) { Some(&s[p.len()..]) } else { None });
    }
    assert_eq!(lines.join(", "), { let mut o = String::new(); for (i, l) in lines.iter().enumerate() { if i > 0 { o = o + ", "; } o = o + l; } o });
}
fn texts(r: &mut Rng) -> usize {
    let set = ["n", "x", " ", "  ", "\t", "\n", "\r", "\r\n", "#", "=", "->", "-", ">", "∂", "é", "\u{2003}", "\u{85}", "\u{b}", "\u{c}", "🌱", "0", ".", "\0", "a\u{301}"];
    let n = 200_000;
    for _ in 0..n {
        let mut s = String::new();
        for _ in 0..r.below(14) { s.push_str(r.pick(&set)); }
        text(&s);
    }
    n
}

pub fn run() {
    chars();
    let texts = texts(&mut Rng::new(21));
    let mut special = vec![0.0f64, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 0.1, 1e-300, 1e300, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 9007199254740992.0];
    let more: Vec<f64> = special.iter().flat_map(|x| [f64::from_bits(x.to_bits().wrapping_add(1)), f64::from_bits(x.to_bits().wrapping_sub(1)), -x]).collect();
    special.extend(more);
    for &a in &special { for &b in &special { pair64(a, b); pair32(a as f32, b as f32); } }
    let mut r = Rng::new(20);
    for i in 0..1_000_000u64 {
        let (p, q) = (r.next(), r.next());
        let a = f64::from_bits(p);
        pair64(a, match i % 4 { 0 => f64::from_bits(q), 1 => f64::from_bits(p.wrapping_add(q % 5)), 2 => special[(q % special.len() as u64) as usize], _ => -a });
        pair64((p >> 40) as f64 / 64.0, (q >> 40) as f64 / 64.0);
        pair32(f32::from_bits(p as u32), f32::from_bits(q as u32));
        pair32((p as u32) as f32 / u32::MAX as f32, (q >> (8 + q % 40)) as u32 as f32 / 256.0);
        let (m, n) = ((p >> 12) as usize, (q >> 12) as usize);
        if m + n <= 1 << 53 { assert!(same(m as f64 + n as f64, (m + n) as f64), "{m} {n}"); }
    }
    for n in 0..=8388608usize {
        let t = 1.0f32 + std::hint::black_box(n) as f32 * f32::EPSILON;
        assert_eq!(t as f64, 1.0 + 2.0 * (n as f64) / 16777216.0, "{n}");
    }
    assert!(same(0usize as f64, 0.0));
    println!("the assumptions about characters, texts and numbers hold on all {} characters, {texts} texts, {} pairs of numbers", char::MAX as u32 - 0x7ff, 4_000_000 + 2 * special.len() * special.len());
}
