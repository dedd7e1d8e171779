use rusty_systems::prelude::*;
use rusty_systems::productions::*;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T { v[self.below(v.len())] }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
}

/// fields of a case <-> one line of text
pub fn encode(f: &[String]) -> String {
    let esc = |s: &String| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
                ' '..='~' => o.push(c),
                c => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            }
        }
        o.push('"');
        o
    };
    f.iter().map(esc).collect::<Vec<_>>().join(" ")
}
pub fn decode(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '"' { continue; }
        let mut w = String::new();
        loop {
            match it.next().expect("unterminated field") {
                '"' => break,
                '\\' => match it.next().unwrap() {
                    'u' => {
                        assert_eq!(it.next(), Some('{'));
                        let mut h = String::new();
                        loop { match it.next().unwrap() { '}' => break, c => h.push(c) } }
                        w.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                    }
                    c => w.push(c),
                },
                c => w.push(c),
            }
        }
        out.push(w);
    }
    out
}

pub fn sym(n: &str) -> Symbol { Symbol::build(n).unwrap_or_else(|e| panic!("cannot build symbol {n:?}: {e}")) }
/// "A B C" -> production string, built without the parser
pub fn pstr(s: &str) -> ProductionString { ProductionString::from(s.split(' ').filter(|w| !w.is_empty()).map(sym).collect::<Vec<_>>()) }
pub fn codes(p: &ProductionString) -> Vec<u32> { p.symbols().iter().map(|s| s.code()).collect() }
pub fn words(s: &str) -> Vec<&str> { s.split(' ').filter(|w| !w.is_empty()).collect() }
pub fn word_codes(s: &str) -> Vec<u32> { words(s).into_iter().map(|w| sym(w).code()).collect() }
pub fn names(p: &ProductionString) -> Vec<String> { p.symbols().iter().map(|s| s.name().unwrap_or(format!("code:{}", s.code()))).collect() }

/// A rule, in the harness's own terms. Text form: `pre<target>post->chance:body|chance:body` where a
/// context of `~` is "no context" and a chance of `-` is "not set".
#[derive(Clone, Debug, PartialEq)]
pub struct Rule { pub pre: Option<String>, pub target: String, pub post: Option<String>, pub bodies: Vec<(Option<f32>, String)> }
impl Rule {
    pub fn text(&self) -> String {
        let c = |o: &Option<String>| o.clone().unwrap_or("~".into());
        let b: Vec<String> = self.bodies.iter().map(|(c, s)| format!("{}:{}", c.map(|c| format!("{c}")).unwrap_or("-".into()), s)).collect();
        format!("{}<{}>{}->{}", c(&self.pre), self.target, c(&self.post), b.join("|"))
    }
    pub fn parse(s: &str) -> Rule {
        let (h, b) = s.split_once("->").unwrap();
        let (pre, r) = h.split_once('<').unwrap();
        let (t, post) = r.split_once('>').unwrap();
        let c = |s: &str| if s == "~" { None } else { Some(s.to_string()) };
        let bodies = b.split('|').map(|x| { let (c, s) = x.split_once(':').unwrap(); (if c == "-" { None } else { Some(c.parse().unwrap()) }, s.to_string()) }).collect();
        Rule { pre: c(pre), target: t.into(), post: c(post), bodies }
    }
    pub fn head(&self) -> ProductionHead {
        ProductionHead::build(self.pre.as_deref().map(pstr), sym(&self.target), self.post.as_deref().map(pstr)).expect("head")
    }
    pub fn build(&self) -> Production {
        let body = |(c, s): &(Option<f32>, String)| match c { None => ProductionBody::new(pstr(s)), Some(c) => ProductionBody::try_with_chance(*c, pstr(s)).expect("body") };
        let mut p = Production::new(self.head(), body(&self.bodies[0]));
        for b in &self.bodies[1..] { p.add_body(body(b)); }
        p
    }
    pub fn pre_codes(&self) -> Vec<u32> { word_codes(self.pre.as_deref().unwrap_or("")) }
    pub fn post_codes(&self) -> Vec<u32> { word_codes(self.post.as_deref().unwrap_or("")) }
    /// C03, from its statement
    pub fn matches(&self, s: &[u32], i: usize) -> bool {
        if i >= s.len() || s[i] != sym(&self.target).code() { return false; }
        let (p, q) = (self.pre_codes(), self.post_codes());
        s[..i].ends_with(&p) && s[i + 1..].starts_with(&q)
    }
    pub fn set_total(&self) -> f64 { self.bodies.iter().map(|b| b.0.unwrap_or(0.0) as f64).sum() }
    /// must fail / may not fail / unspecified (within rounding)
    pub fn fails(&self) -> Option<bool> {
        if self.bodies.len() == 1 { return Some(false); }
        let t = self.set_total();
        if t > 1.0 + 1e-4 { Some(true) } else if t <= 1.0 { Some(false) } else { None }
    }
}
pub fn show_codes(v: &[u32]) -> String { v.iter().map(|c| rusty_systems::symbols::get_name(*c).unwrap_or(format!("code:{c}"))).collect::<Vec<_>>().join(" ") }

#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } } }
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
pub fn s(x: impl ToString) -> String { x.to_string() }
