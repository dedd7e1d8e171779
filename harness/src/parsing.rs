//! C07, C08 (production strings), C09 (rules), C14 (plant files)
use crate::rewriting::{merge_rules, rstring};
use crate::systems::{model, stored};
use crate::*;
use rusty_systems::interpretation::abop;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser::{parse_prod_string, parse_production, parse_production_body, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::*;

const OPS: &str = "<>-+();";

/// C07, from its statement: the symbols' names, or that it is an error
pub fn tokens(text: &str) -> Result<Vec<String>, ()> {
    let mut toks: Vec<String> = vec![];
    let mut kind = 0; // 0 none, 1 operator run, 2 other run
    for c in text.chars() {
        if c.is_whitespace() { kind = 0; continue; }
        let k = if OPS.contains(c) { 1 } else { 2 };
        if k != kind { toks.push(String::new()); }
        toks.last_mut().unwrap().push(c);
        kind = k;
    }
    let mut out = vec![];
    for t in toks {
        if t == ";" { break; }
        if t == "->" || t == "<" || t == ">" { return Err(()); }
        out.push(t);
    }
    Ok(out)
}
fn ascii_ws(t: &str) -> bool { t.chars().all(|c| !c.is_whitespace() || c.is_ascii_whitespace()) }
fn split_ws(t: &str) -> Vec<&str> { t.split(|c: char| c.is_ascii_whitespace()).filter(|w| !w.is_empty()).collect() }

#[derive(Debug, Clone, PartialEq)]
pub struct Spelled { pub pre: Option<Vec<String>>, pub target: String, pub post: Option<Vec<String>>, pub chance: Option<f32>, pub body: Vec<String> }
fn owned(v: &[&str]) -> Vec<String> { v.iter().map(s).collect() }
pub fn head(text: &str) -> Result<(Option<Vec<String>>, String, Option<Vec<String>>), String> {
    let w = split_ws(text);
    let (pre, rest) = match w.iter().position(|t| *t == "<") { Some(i) => (Some(owned(&w[..i])), &w[i + 1..]), None => (None, &w[..]) };
    let (mid, post) = match rest.iter().position(|t| *t == ">") { Some(i) => (&rest[..i], Some(owned(&rest[i + 1..]))), None => (rest, None) };
    if mid.len() != 1 { return Err(format!("{} targets", mid.len())); }
    Ok((pre, s(mid[0]), post))
}
pub fn body(text: &str) -> Result<(Option<f32>, Vec<String>), String> {
    let w = split_ws(text);
    match w.first().and_then(|t| t.parse::<f32>().ok()) {
        Some(c) => if c > 0.0 && c <= 1.0 { Ok((Some(c), owned(&w[1..]))) } else { Err(format!("chance {c}")) },
        None => Ok((None, owned(&w))),
    }
}
/// C09, from its statement
pub fn rule(text: &str) -> Result<Spelled, String> {
    let i = text.find("->").ok_or("no arrow")?;
    let (pre, target, post) = head(&text[..i])?;
    let (chance, body) = body(&text[i + 2..])?;
    Ok(Spelled { pre, target, post, chance, body })
}
fn spelled_head(h: &ProductionHead) -> (Option<Vec<String>>, String, Option<Vec<String>>) { (h.pre_context().map(names), h.target().name().unwrap_or_default(), h.post_context().map(names)) }
fn spelled_body(b: &ProductionBody) -> (Option<f32>, Vec<String>) { (if b.chance().is_derived() { None } else { Some(b.chance().unwrap()) }, names(b.string())) }
fn bits(c: &Option<f32>) -> Option<u32> { c.map(f32::to_bits) }

pub struct Plant { pub n: usize, pub delta: f32, pub initial: Vec<String>, pub rules: Vec<Rule> }
/// C14, from its statement
pub fn plant(text: &str) -> Result<Plant, String> {
    let (mut n, mut delta, mut initial, mut rules) = (2usize, 5.0f32, None, vec![]);
    if text.trim().is_empty() { return Err(s("empty")); }
    let text = text.trim();
    for line in text.split('\n') {
        let line = line.strip_suffix('\r').unwrap_or(line);
        let line = match line.find('#') { Some(i) => &line[..i], None => line }.trim();
        if line.is_empty() { continue; }
        if let Some(i) = line.find('=') {
            let (k, v) = (line[..i].trim(), line[i + 1..].trim());
            match k {
                "n" | "N" => n = v.parse().map_err(|_| format!("bad number {v}"))?,
                "d" | "D" | "delta" | "∂" => delta = v.parse().map_err(|_| format!("bad number {v}"))?,
                _ => return Err(format!("not understood: {line}")),
            }
        } else if let Some(r) = line.strip_prefix("initial:") { initial = Some(s(r)); }
        else {
            let sp = rule(line)?;
            let j = |v: &Vec<String>| v.join(" ");
            rules.push(Rule { pre: sp.pre.as_ref().map(j), target: sp.target, post: sp.post.as_ref().map(j), bodies: vec![(sp.chance, j(&sp.body))] });
        }
    }
    if rules.is_empty() { return Err(s("no rule")); }
    let initial = tokens(&initial.ok_or("no initial string")?).map_err(|_| s("initial string malformed"))?;
    Ok(Plant { n, delta, initial, rules })
}

pub fn check(prop: &str, f: &[String]) -> Res {
    match prop {
        "C07" => {
            let t = &f[0];
            let got = parse_prod_string(t);
            let got2 = t.parse::<ProductionString>();
            match (tokens(t), got) {
                (Err(()), Ok(p)) => return Err(format!("{t:?} parses to {:?}, it holds a token that is an error", names(&p))),
                (Ok(w), Err(e)) => return Err(format!("{t:?} is refused ({e}), it reads as {w:?}")),
                (Ok(w), Ok(p)) => {
                    ensure!(names(&p) == w, "{t:?} parses to {:?}, it reads as {w:?}", names(&p));
                    ensure!(got2.map(|q| q == p).unwrap_or(false), "{t:?}: parsing with FromStr differs");
                }
                (Err(()), Err(_)) => {}
            }
            Ok(())
        }
        "C08" => {
            if f[0] == "codes" {
                let cs: Vec<u32> = f[1..].iter().map(|c| c.parse().unwrap()).collect();
                let p = ProductionString::from(cs.iter().map(|c| Symbol::from_code(*c)).collect::<Vec<_>>());
                let want: Vec<String> = cs.iter().map(|c| format!("code:{c}")).collect();
                ensure!(p.to_string() == want.join(" "), "symbols without names print as {:?}, expected {:?}", p.to_string(), want.join(" "));
                return Ok(());
            }
            let t = &f[1];
            let Ok(p) = parse_prod_string(t) else { return Ok(()) };
            let printed = p.to_string();
            ensure!(printed == names(&p).join(" "), "{t:?} prints as {printed:?}, its symbols are {:?}", names(&p));
            ensure!(format!("{p}") == printed, "{t:?}: formatting differs from to_string");
            for y in p.symbols() { ensure!(Some(y.to_string()) == y.name(), "symbol {:?} prints as {:?}", y.name(), y.to_string()); }
            match parse_prod_string(&printed) {
                Err(e) => Err(format!("{t:?} prints as {printed:?}, which does not parse: {e}")),
                Ok(q) => { ensure!(q == p && codes(&q) == codes(&p), "{t:?} prints as {printed:?}, which parses to {:?}", names(&q)); Ok(()) }
            }
        }
        "C09" => {
            let t = &f[1];
            match f[0].as_str() {
                "chance" => {
                    let c = f32::from_bits(t.parse().unwrap());
                    let ok = c > 0.0 && c <= 1.0;
                    match ProductionBody::try_with_chance(c, pstr("A B")) {
                        Err(_) => ensure!(!ok, "chance {c} is refused"),
                        Ok(b) => {
                            ensure!(ok, "chance {c} is accepted");
                            ensure!(b.chance().is_user_set() && !b.chance().is_derived() && b.chance().unwrap().to_bits() == c.to_bits() && b.chance().unwrap_or(0.5).to_bits() == c.to_bits() && b.chance().expect("x").to_bits() == c.to_bits(), "chance {c} is kept as {:?}", b.chance());
                            ensure!(codes(b.string()) == word_codes("A B"), "the string of a body with a chance is {:?}", names(b.string()));
                        }
                    }
                    let b = ProductionBody::new(pstr("A"));
                    ensure!(b.chance().is_derived() && !b.chance().is_user_set() && b.chance().unwrap_or(c).to_bits() == c.to_bits(), "a body without chance has one");
                    return Ok(());
                }
                "head" => {
                    let got = parse_production_head(t);
                    if !ascii_ws(t) { return Ok(()); }
                    match (head(t), got) {
                        (Err(e), Ok(h)) => return Err(format!("head {t:?} parses to {:?}, expected an error ({e})", spelled_head(&h))),
                        (Ok(w), Err(e)) => return Err(format!("head {t:?} is refused ({e}), it spells {w:?}")),
                        (Ok(w), Ok(h)) => ensure!(spelled_head(&h) == w, "head {t:?} parses to {:?}, it spells {w:?}", spelled_head(&h)),
                        _ => {}
                    }
                }
                "body" => {
                    let got = parse_production_body(t);
                    if !ascii_ws(t) { return Ok(()); }
                    match (body(t), got) {
                        (Err(e), Ok(b)) => return Err(format!("body {t:?} parses to {:?}, expected an error ({e})", spelled_body(&b))),
                        (Ok(w), Err(e)) => return Err(format!("body {t:?} is refused ({e}), it spells {w:?}")),
                        (Ok(w), Ok(b)) => { let g = spelled_body(&b); ensure!(g.1 == w.1 && bits(&g.0) == bits(&w.0), "body {t:?} parses to {g:?}, it spells {w:?}"); }
                        _ => {}
                    }
                }
                _ => {
                    let got = parse_production(t);
                    let other = Production::try_from(t.as_str());
                    ensure!(got.is_ok() == other.is_ok(), "{t:?}: parse_production and TryFrom disagree");
                    if !ascii_ws(t) { return Ok(()); }
                    match (rule(t), got) {
                        (Err(e), Ok(p)) => return Err(format!("rule {t:?} parses to {:?}, expected an error ({e})", spelled_head(p.head()))),
                        (Ok(w), Err(e)) => return Err(format!("rule {t:?} is refused ({e}), it spells {w:?}")),
                        (Ok(w), Ok(p)) => {
                            ensure!(p.all_bodies().len() == 1, "rule {t:?} has {} bodies", p.all_bodies().len());
                            let h = spelled_head(p.head());
                            let b = spelled_body(&p.all_bodies()[0]);
                            ensure!(h == (w.pre.clone(), w.target.clone(), w.post.clone()), "rule {t:?} has the head {h:?}, it spells {w:?}");
                            ensure!(b.1 == w.body && bits(&b.0) == bits(&w.chance), "rule {t:?} has the body {b:?}, it spells {w:?}");
                        }
                        _ => {}
                    }
                }
            }
            Ok(())
        }
        "C14" => {
            let t = &f[0];
            let got = abop::parser::parse(t);
            let line_ws = t.chars().all(|c| !c.is_whitespace() || c.is_ascii_whitespace());
            let (i, y, init) = match (plant(t), got) {
                (Err(e), Ok(_)) if line_ws => return Err(format!("{t:?} is accepted, expected an error ({e})")),
                (Ok(_), Err(e)) if line_ws => return Err(format!("{t:?} is refused: {e}")),
                (_, Err(_)) | (Err(_), _) => return Ok(()),
                (Ok(_), Ok(x)) => x,
            };
            if !line_ws { return Ok(()); }
            let w = plant(t).unwrap();
            ensure!(i.n() == w.n, "{t:?} gives {} iterations, expected {}", i.n(), w.n);
            ensure!(i.delta().to_bits() == w.delta.to_bits(), "{t:?} gives the angle {}, expected {}", i.delta(), w.delta);
            ensure!(i.run_settings().max_iterations == w.n, "{t:?}: run settings of {} iterations, expected {}", i.run_settings().max_iterations, w.n);
            ensure!(names(&init) == w.initial, "{t:?} gives the initial string {:?}, expected {:?}", names(&init), w.initial);
            for n in ["Forward", "Move", "+", "-", "[", "]", "X"] { ensure!(rusty_systems::symbols::SymbolStore::get_symbol(&y, n).is_some(), "{t:?}: the system does not know {n}"); }
            let merged = merge_rules(&w.rules);
            ensure!(y.production_len() == merged.len(), "{t:?} gives {} rules, expected {}", y.production_len(), merged.len());
            // order of the rules: one step on strings of the symbols used
            let heads: Vec<&Rule> = merged.iter().collect();
            let alpha: Vec<String> = merged.iter().flat_map(|r| words(&r.target).into_iter().map(s).collect::<Vec<_>>()).collect();
            if alpha.len() <= 4 {
                for a in &alpha { for b in &alpha { for c in &alpha {
                    let text = format!("{a} {b} {c}");
                    let sc = word_codes(&text);
                    if let Ok(out) = y.derive_once(pstr(&text)) {
                        let det: Option<Vec<u32>> = (0..3).map(|i| match heads.iter().find(|r| r.matches(&sc, i)) { None => Some(vec![sc[i]]), Some(r) if r.bodies.len() == 1 => Some(word_codes(&r.bodies[0].1)), _ => None }).collect::<Option<Vec<_>>>().map(|v| v.concat());
                        if let Some(d) = det { ensure!(codes(&out) == d, "{t:?}: [{text}] derives to [{}], expected [{}]", show_codes(&codes(&out)), show_codes(&d)); }
                    }
                } } }
            }
            for r in &merged {
                let extra = Rule { bodies: vec![(None, s("readback"))], ..r.clone() };
                let got = stored(&y.add_production(extra.build()).map_err(s)?);
                let mut want = model(r);
                want.1.push((None, word_codes("readback")));
                ensure!(got.0 == want.0 && got.1.len() == want.1.len() && got.1.iter().zip(&want.1).all(|(a, b)| a.1 == b.1 && bits(&a.0) == bits(&b.0)), "{t:?}: rule {} is stored as {got:?}", r.text());
            }
            ensure!(y.production_len() == merged.len(), "{t:?}: the rules have other heads than written");
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn rtext(r: &mut Rng, pool: &[&str], max: usize) -> String { let n = r.below(max + 1); (0..n).map(|_| pool[r.below(pool.len())]).collect() }
fn all_texts(alpha: &[&str], max: usize, mut go: impl FnMut(String)) {
    let mut last = vec![String::new()];
    go(String::new());
    for _ in 0..max { let mut n = vec![]; for l in &last { for a in alpha { let t = format!("{l}{a}"); go(t.clone()); n.push(t); } } last = n; }
}
const ANY: [&str; 52] = ["code:7", "code:100", "code:", "'", "\"x\"", "\\n", "&", "100", "NaN", "None", "%", "{}","A", "b", "F", "[", "]", "é", "🌿", " ", " ", "\t", "\n", "\u{a0}", "\u{3000}", "\u{2028}", "<", ">", "-", "+", "(", ")", ";", "->", " -> ", " ; ", "0", ".", "#", "=", ":", "\"", "\\", "\u{0}", "\u{feff}", "\u{200b}", "e\u{301}", "\r\n", "\u{b}", "\u{1c}", "AB", "Forward"];

const ODD: [&str; 36] = ["code:7", "code:100", "code:101", "code:", "Code:7", "code:x", "'", "\"", "'A'", "\"A\"", "`", "\\", "\\n", "\\u{41}", "&lt;", "&", "%20", "{}", "{0}", "%s", "100", "0x64", "1e3", "NaN", "inf", "None", "Some", "symbol", "_", "$A", "#", "//", "/*", "*/", "=", ":"];
fn rrule_text(r: &mut Rng) -> String {
    let names = ["A", "B", "C", "F", "X", "AB", "+", "-", "[", "]", "(", "a-b", "1", "0.5", "é", ">", "<", "A;", ";", "x=1"];
    let sep = |r: &mut Rng| s([" ", " ", " ", "  ", "\t", " \t ", "\n", "\u{c}"][r.below(8)]);
    let list = |r: &mut Rng, max: usize| { let n = r.below(max + 1); let mut t = String::new(); for i in 0..n { if i > 0 { t += &sep(r); } t += names[r.below(names.len())]; } t };
    let mut t = String::new();
    if r.chance(1, 4) { t += &sep(r); }
    if r.chance(1, 2) { let long = if r.chance(1, 10) { 20 } else { 3 }; t += &list(r, long); t += &sep(r); t += "<"; t += &sep(r); }
    if !r.chance(1, 20) { t += names[r.below(14)]; }
    if r.chance(1, 15) { t += " B"; }
    if r.chance(1, 2) { t += &sep(r); t += ">"; t += &sep(r); let long = if r.chance(1, 10) { 20 } else { 3 }; t += &list(r, long); }
    t += ["->", " -> ", " ->", "-> ", "\t->\t", " - > ", ""][if r.chance(1, 30) { 5 + r.below(2) } else { r.below(5) }];
    if r.chance(1, 2) { t += ["0.5", "1", "0", "1.0", "0.001", "1.5", "-0.5", "+0.25", ".5", "5e-1", "1e", "NaN", "inf", "0.0000001", "1e-46", "0x1", "0.5f", "1.0000001", "0,5"][r.below(19)]; t += &sep(r); }
    let long = if r.chance(1, 8) { 24 } else { 5 };
    t += &list(r, long);
    if r.chance(1, 8) { t += &sep(r); t += ["0.5", "1", "2", "0", "-1", "1.5"][r.below(6)]; }
    if r.chance(1, 12) { t += " -> A"; }
    if r.chance(1, 4) { t += &sep(r); }
    t
}
fn rplant(r: &mut Rng) -> String {
    let eol = ["\n", "\n", "\n", "\r\n"][r.below(4)];
    let mut lines: Vec<String> = vec![];
    let rules = ["X -> Forward [ + X ] X", "X -> 0.5 Forward", "Forward -> Forward Forward", "A < X > B -> X", "X -> ", "Y -> X X", "+ < X -> -", "X -> [ X ] # half", "Forward -> 0.25 Move", "Y > X -> Y Y", "X -> 1 X -> Y"];
    let bad = ["X", "X Y -> Z", "-> X", "X -> 2 Y", "m = 3", "n = ", "n = -1", "n = 1.5", "n = x", "delta = x", "n 3", "initial X", "= 3", "X = Y -> Z", "initial : X", "n = 99999999999999999999999", "delta =", "Initial: X", "initial: X -> Y", "initial: X <"];
    let ini = ["initial: X", "initial:X", "initial: Forward X ; Y", "initial:", "  initial:  X   X ", "initial: A B X B", "initial: X-X", "initial: [X]", "initial: a:b"];
    let num = ["n = 3", "N=7", "n=0", " n  =  12 ", "n = 3 # = 4", "N = +4", "n = 10"];
    let ang = ["delta = 22.5", "d = 90", "D=1e2", "∂ = 30", "delta = -5", "d = .5", "delta = 25.7 # degrees", "d=0"];
    let filler = ["", "   ", "# comment", "  # n = 9", "\t", "#", "## initial: Z", "# X -> Y = Z"];
    for _ in 0..r.range(0, 9) {
        let l = match r.below(12) { 0..=3 => rules[r.below(rules.len())], 4 => num[r.below(num.len())], 5 => ang[r.below(ang.len())], 6 | 7 => ini[r.below(ini.len())], 8 | 9 => filler[r.below(filler.len())], 10 => if r.chance(1, 3) { bad[r.below(bad.len())] } else { "X -> X" }, _ => { lines.push(rrule_text(r).replace('\n', " ")); continue } };
        lines.push(s(l));
    }
    if r.chance(3, 4) { let k = r.below(lines.len() + 1); lines.insert(k, s(ini[r.below(ini.len())])); }
    if r.chance(3, 4) { let k = r.below(lines.len() + 1); lines.insert(k, s(rules[r.below(rules.len())])); }
    for l in lines.iter_mut() { if r.chance(1, 6) { l.push_str([" # note", "#x", "  #", " # a = b", "#initial: Q"][r.below(5)]); } if r.chance(1, 8) { *l = format!("  {l}\t"); } }
    let mut t = lines.join(eol);
    if r.chance(1, 2) { t += eol; }
    if r.chance(1, 40) { t = format!("\u{a0}{t}"); }
    t
}

pub fn gen(prop: &str, g: &mut Gen) {
    match prop {
        "C07" | "C08" => {
            let f = |p: &str, t: String| if p == "C07" { vec![t] } else { vec![s("text"), t] };
            let depth = if prop == "C07" { 5 } else { 4 };
            all_texts(&["a", " ", "-", ">", "<", ";", "\u{3000}", "é"], depth, |t| g.each(&f(prop, t)));
            all_texts(&["A", " ", "-", "+", "(", ")"], 5, |t| g.each(&f(prop, t)));
            for c in (0u32..0x3100).chain(0xfe00..0x10000).filter_map(char::from_u32) { g.each(&f(prop, format!("x{c}y"))); g.each(&f(prop, format!("{c}- {c}"))); }
            for _ in 0..g.count(60000) { let t = { let r = &mut g.rng; let max = if r.chance(1, 30) { 400 } else { 14 }; rtext(r, &ANY, max) }; g.one(&f(prop, t)); }
            for _ in 0..g.count(200) { let t = { let r = &mut g.rng; let n = [255, 256, 257, 1000, 4096, 5000][r.below(6)]; let unit = ["A ", "-", "é", " ", "A-", "\u{3000}x", "[ + F ] "][r.below(7)]; let mut t = unit.repeat(n); t.push_str(&rtext(r, &ANY, 5)); t }; g.one(&f(prop, t)); }
            for n in [65_535usize, 65_536, 65_537, 70_000] { for unit in ["A ", "-", "é", " ", "ab- "] { if n != 65_537 && !g.thorough { continue; } g.each(&f(prop, format!("x {}y", unit.repeat(n)))); } }
            // words that look like something else: numbers, printed codes, quoted or escaped text
            for a in ODD { for b in ["", " A", "+", "A"] { for c in ["", "A ", "-", "A"] { g.each(&f(prop, format!("{c}{a}{b}"))); } } for b in ODD { g.each(&f(prop, format!("{a} {b}"))); g.each(&f(prop, format!("{a}{b} {a}"))); } }
            for n in [0u32, 1, 7, 99, 100, 101, 102, 103, 110, 127, 128, 150, 200, 255, 256, 300, 1000, 65535, 65536, u32::MAX] { g.each(&f(prop, format!("code:{n}"))); g.each(&f(prop, format!("A code:{n} {n}"))); }
            if prop == "C08" {
                g.each(&[s("codes"), s(0), s(1), s(99)]); g.each(&[s("codes"), s(u32::MAX)]); g.each(&[s("codes")]);
                for _ in 0..g.count(300) { let r = &mut g.rng; let mut v = vec![s("codes")]; for _ in 0..r.below(6) { v.push(s([0, 7, 42, 99, 4_000_000_000u32, u32::MAX][r.below(6)])); } g.one(&v); }
            }
        }
        "C09" => {
            all_texts(&["A", " ", "<", ">", "->", "1"], 6, |t| g.each(&[s("rule"), t]));
            all_texts(&["A", " ", "<", ">", "B "], 6, |t| g.each(&[s("head"), t]));
            all_texts(&["A", " ", "0.5", "2", "-", "->"], 5, |t| g.each(&[s("body"), t]));
            for c in [0.0f32, -0.0, 1.0, 0.5, f32::MIN_POSITIVE, f32::from_bits(1), f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON / 2.0, -1.0, -f32::MIN_POSITIVE, 2.0, 100.0, -f32::NAN, f32::MAX, 0.1, 0.99999] { g.each(&[s("chance"), s(c.to_bits())]); }
            for _ in 0..g.count(20000) { let b = if g.rng.chance(1, 2) { g.rng.next() as u32 } else { (g.rng.unit() as f32 * 1.2).to_bits() }; g.one(&[s("chance"), s(b)]); }
            for _ in 0..g.count(40000) { let t = rrule_text(&mut g.rng); g.one(&[s("rule"), t]); }
            for _ in 0..g.count(8000) { let r = &mut g.rng; let t = rtext(r, &ANY, 12); let k = ["rule", "head", "body"][r.below(3)]; g.one(&[s(k), t]); }
            for _ in 0..g.count(3000) { let r = &mut g.rng; let k = ["head", "body"][r.below(2)]; let t = rrule_text(r); let t = if k == "head" { t.split("->").next().unwrap().to_string() } else { t.split_once("->").map(|x| s(x.1)).unwrap_or_default() }; g.one(&[s(k), t]); }
            for _ in 0..g.count(100) { let r = &mut g.rng; let n = [64, 128, 256, 300, 1000][r.below(5)]; let t = format!("{} < A > {} -> 0.5 {}", rstring(r, &["A", "B"], n), rstring(r, &["A", "B"], n), rstring(r, &["A", "C", "0.5", "3"], n)); g.one(&[s("rule"), t]); }
        }
        "C14" => {
            for t in ["", " \n ", "# only", "n = 3", "initial: X", "X -> Y", "initial: X\nX -> Y", "X -> Y\ninitial: X\nn = 3\nn = 4\ndelta = 1\nd = 2", "initial: X\ninitial: Y\nX -> Y", "initial: X\nX -> Y\nX -> Z", "initial: X\nX -> Y\nbad", "initial: X\nX -> Y\nn=3=4", "initial: X\n\n\n#\nX -> Y # z\n  \n", "initial: X\r\nX -> Y\r\nn = 3\r\n", "initial: X # Y\nX -> Y", "initial: X\nX -> Y#Z", "initial: X\nX -> Y\n∂ = 3", "initial: n = 3\nX -> Y", "initial: X\nX -> Y\nn = 3\nN = 5\nn = 4", "initial: X\nX -> Y\nq = 3", "initial: X\nX -> Y\nnn = 3"] { g.each(&[s(t)]); }
            let lines = ["initial: X", "X -> Y", "n = 3", "N=4", "delta = 7", "# c", "", "X -> 0.5 Z", "Y < X -> W", "bad", "initial: Y"];
            for a in lines { for b in lines { for c in lines { for d in lines { g.each(&[format!("{a}\n{b}\n{c}\n{d}")]); } } } }
            for _ in 0..g.count(16000) { let t = rplant(&mut g.rng); g.one(&[t]); }
            for _ in 0..g.count(3000) { let t = { let r = &mut g.rng; let mut p = rplant(r).chars().collect::<Vec<_>>(); for _ in 0..r.range(1, 4) { if p.is_empty() { break; } let k = r.below(p.len()); match r.below(3) { 0 => { p.remove(k); } 1 => { let c = ['#', '=', ':', '\n', ' ', '<', '>', '-', '1', 'é', ';'][r.below(11)]; p.insert(k, c); } _ => { let j = r.below(p.len()); p.swap(k, j); } } } p.into_iter().collect::<String>() }; g.one(&[t]); }
        }
        _ => unreachable!(),
    }
}
