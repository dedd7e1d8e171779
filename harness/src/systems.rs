//! C05 (rules of a system), C06 (names and codes), C19 (symbol stores)
use crate::rewriting::*;
use crate::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::*;
use rusty_systems::parser::parse_and_add_production;
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Barrier};

type Body = (Option<f32>, Vec<u32>);
type Head = (Option<Vec<u32>>, u32, Option<Vec<u32>>);
pub fn head_key(h: &ProductionHead) -> Head { (h.pre_context().map(codes), h.target().code(), h.post_context().map(codes)) }
pub fn stored(p: &Production) -> (Head, Vec<Body>) {
    (head_key(p.head()), p.all_bodies().iter().map(|b| (if b.chance().is_derived() { None } else { Some(b.chance().unwrap()) }, codes(b.string()))).collect())
}
pub fn model(r: &Rule) -> (Head, Vec<Body>) {
    ((r.pre.as_deref().map(word_codes), sym(&r.target).code(), r.post.as_deref().map(word_codes)), r.bodies.iter().map(|(c, b)| (*c, word_codes(b))).collect())
}
fn same(a: &[Body], b: &[Body]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.1 == y.1 && x.0.map(f32::to_bits) == y.0.map(f32::to_bits)) }

struct Bad;
impl TryFrom<Bad> for Production { type Error = Error; fn try_from(_: Bad) -> Result<Self, Error> { Err(Error::general("not a rule")) } }

/// which rule a system applies at position i of a string, told by the marker in its body
fn c05(f: &[String]) -> Res {
    let y = System::new();
    let mut rules: Vec<(Head, Vec<Body>)> = vec![];
    let mut alphabet: BTreeSet<u32> = BTreeSet::new();
    let mut order: Vec<Rule> = vec![];
    for (k, op) in f[1..].iter().enumerate() {
        if let Some(t) = op.strip_prefix('!') {
            // text that is not a rule, or not a rule at all
            let r = if t.is_empty() { y.add_production(Bad) } else if k % 2 == 1 { parse_and_add_production(&y, &y, t) } else { y.add_production(t) };
            ensure!(r.is_err(), "adding {t:?} is not an error");
        } else if let Some(t) = op.strip_prefix('+') {
            // a rule given as text
            let (h, b) = Rule::parse(t).plain();
            let t = format!("{h}->{b}");
            let got = if k % 3 == 1 { parse_and_add_production(&y, &y, &t) } else { y.add_production(t.as_str()) }.map_err(|e| format!("adding {h}->{b}: {e}"))?;
            let rule = Rule::parse(&op[1..]);
            c05_model(&mut rules, &mut alphabet, &mut order, &rule);
            c05_returned(&rules, &got, &rule, k)?;
        } else {
            let r = Rule::parse(op);
            let got = y.add_production(r.build()).map_err(|e| format!("adding {op}: {e}"))?;
            c05_model(&mut rules, &mut alphabet, &mut order, &r);
            c05_returned(&rules, &got, &r, k)?;
        }
        ensure!(y.production_len() == rules.len(), "after operation {k} ({op}) there are {} rules, expected {}", y.production_len(), rules.len());
        ensure!(y.symbol_len() == alphabet.len(), "after operation {k} ({op}) the alphabet has {} symbols, expected {}", y.symbol_len(), alphabet.len());
        for c in &alphabet {
            let n = get_name(*c).ok_or("symbol without a name")?;
            ensure!(y.get_symbol(&n).map(|x| x.code()) == Some(*c), "after operation {k} ({op}) symbol {n} is not in the alphabet");
        }
    }
    // the order of the rules, seen by which one is applied first
    for text in f[0].split('/') {
        let sc = word_codes(text);
        if let Ok(out) = y.derive_once(pstr(text)) {
            let mut alts: Vec<Vec<Vec<u32>>> = vec![];
            for i in 0..sc.len() {
                let m = rules.iter().find(|((p, t, q), _)| sc[i] == *t && sc[..i].ends_with(p.as_deref().unwrap_or(&[])) && sc[i + 1..].starts_with(q.as_deref().unwrap_or(&[])));
                alts.push(match m { None => vec![vec![sc[i]]], Some((_, b)) => b.iter().map(|x| x.1.clone()).collect() });
            }
            let o = codes(&out);
            let mut at: BTreeSet<usize> = BTreeSet::from([0]);
            for a in &alts { let mut n = BTreeSet::new(); for p in &at { for x in a { if o[*p..].starts_with(x) { n.insert(p + x.len()); } } } at = n; }
            ensure!(at.contains(&o.len()), "the system derives [{text}] to [{}]; with its rules in the order of their first addition the choices are {:?}", show_codes(&o), alts.iter().map(|a| a.iter().map(|x| show_codes(x)).collect::<Vec<_>>()).collect::<Vec<_>>());
        }
    }
    // read every rule back by adding one more body to it
    for i in 0..rules.len() {
        let r = order[i].clone();
        let extra = Rule { bodies: vec![(None, format!("last{i}"))], ..r };
        let got = y.add_production(extra.build()).map_err(|e| format!("adding to rule {i}: {e}"))?;
        rules[i].1.push((None, word_codes(&format!("last{i}"))));
        let (h, b) = stored(&got);
        ensure!(h == rules[i].0 && same(&b, &rules[i].1), "rule {i} is stored with bodies {b:?}, expected {:?}", rules[i].1);
        ensure!(y.production_len() == rules.len(), "reading back rule {i} changed the number of rules to {}", y.production_len());
    }
    Ok(())
}
fn c05_model(rules: &mut Vec<(Head, Vec<Body>)>, alphabet: &mut BTreeSet<u32>, order: &mut Vec<Rule>, r: &Rule) {
    let (h, b) = model(r);
    alphabet.insert(h.1);
    for c in h.0.iter().chain(h.2.iter()) { alphabet.extend(c); }
    for x in &b { alphabet.extend(&x.1); }
    match rules.iter_mut().find(|x| x.0 == h) { Some(x) => x.1.extend(b), None => { rules.push((h, b)); order.push(r.clone()); } }
}
fn c05_returned(rules: &[(Head, Vec<Body>)], got: &Production, r: &Rule, k: usize) -> Res {
    let (h, _) = model(r);
    let want = rules.iter().find(|x| x.0 == h).unwrap();
    let (gh, gb) = stored(got);
    ensure!(gh == h, "operation {k} returns a rule with another head");
    ensure!(same(&gb, &want.1), "operation {k} ({}) returns the bodies {gb:?}, expected {:?}", r.text(), want.1);
    Ok(())
}
impl Rule {
    /// the rule as text for the parser (one body)
    pub fn plain(&self) -> (String, String) {
        let mut h = String::new();
        if let Some(p) = &self.pre { h.push_str(p); h.push_str(" < "); }
        h.push_str(&self.target);
        if let Some(p) = &self.post { h.push_str(" > "); h.push_str(p); }
        let (c, b) = &self.bodies[0];
        (h, format!("{} {b}", c.map(|c| format!("{c}")).unwrap_or_default()))
    }
}
fn c05_threads(f: &[String]) -> Res {
    let n: usize = f[1].parse().unwrap();
    let per: usize = f[2].parse().unwrap();
    let y = Arc::new(System::new());
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|t| { let (y, bar) = (y.clone(), bar.clone()); std::thread::spawn(move || -> Res {
        bar.wait();
        let mut seen: BTreeMap<usize, usize> = BTreeMap::new();
        for k in 0..per {
            let h = (k + t) % 3;
            let r = Rule { pre: None, target: format!("H{h}"), post: None, bodies: vec![(None, format!("b{t}x{k}"))] };
            let got = stored(&y.add_production(r.build()).map_err(s)?);
            let mine: Vec<&Body> = got.1.iter().filter(|b| show_codes(&b.1).starts_with(&format!("b{t}x"))).collect();
            let c = seen.entry(h).or_default();
            *c += 1;
            ensure!(mine.len() == *c, "thread {t} added {} bodies to H{h}, the returned rule has {}", *c, mine.len());
            ensure!(show_codes(&got.1.last().unwrap().1) == format!("b{t}x{k}"), "the returned rule does not end with the added body");
            ensure!(y.get_symbol(&format!("b{t}x{k}")).is_some(), "symbol of an added rule is missing");
        }
        Ok(())
    }) }).collect();
    for h in hs { h.join().map_err(|_| s("thread panicked"))??; }
    ensure!(y.production_len() == 3, "{} rules after adding rules with three heads from {n} threads", y.production_len());
    let mut total = 0;
    for h in 0..3 {
        let r = Rule { pre: None, target: format!("H{h}"), post: None, bodies: vec![(None, s("end"))] };
        let got = stored(&y.add_production(r.build()).map_err(s)?);
        let set: BTreeSet<&Vec<u32>> = got.1.iter().map(|b| &b.1).collect();
        ensure!(set.len() == got.1.len(), "a body of H{h} is stored twice");
        // per thread in the order of adding
        for t in 0..n {
            let ks: Vec<usize> = got.1.iter().filter_map(|b| show_codes(&b.1).strip_prefix(&format!("b{t}x")).map(|k| k.parse().unwrap())).collect();
            ensure!(ks.windows(2).all(|w| w[0] < w[1]), "bodies of thread {t} are out of order: {ks:?}");
        }
        total += got.1.len() - 1;
    }
    ensure!(total == n * per, "{} bodies were added, {total} are stored", n * per);
    Ok(())
}

static FRESH: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn c06(f: &[String]) -> Res {
    if f[0] == "threads" { return c06_threads(f); }
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let mut used: BTreeSet<u32> = BTreeSet::new();
    // "many": the second field is how many names
    let many: Vec<String> = if f[0] == "many" { let n: usize = f[1].parse().unwrap(); (0..n).map(|i| format!("{}{i}", f[2])).chain((0..n).step_by(97).map(|i| format!(" {}{i}\t", f[2]))).collect() } else { vec![] };
    for (k, name) in (if f[0] == "many" { &many[..] } else { &f[1..] }).iter().enumerate() {
        let t = name.trim().to_string();
        // the codes that come next, looked up before and after they are given out
        if k % 3 == 1 { if let Some(&top) = used.last() { for x in top..top + 40 { let _ = (get_name(x), Symbol::from_code(x).to_string(), Symbol::try_from(x)); } } }
        let via: Result<u32, Error> = match k % 4 { 0 => get_code(name), 1 => Symbol::build(name).map(|s| s.code()), 2 => Symbol::try_from(name.as_str()).map(|s| s.code()), _ => name.parse::<Symbol>().map(|s| s.code()) };
        if t.is_empty() {
            ensure!(via.is_err(), "the empty name {name:?} is given code {:?}", via);
            // it allocates nothing: no code between two fresh ones has a name
            let n = FRESH.fetch_add(2, std::sync::atomic::Ordering::SeqCst);
            let a = get_code(&format!("fresh{n}")).map_err(s)?;
            ensure!(get_code(name).is_err(), "the empty name {name:?} is given a code");
            let b = get_code(&format!("fresh{}", n + 1)).map_err(s)?;
            for x in a.saturating_add(1)..b { ensure!(get_name(x).is_none(), "the empty name {name:?} allocated code {x}"); }
            continue;
        }
        let c = via.map_err(|e| format!("name {name:?} is refused: {e}"))?;
        if let Some(old) = seen.get(&t) { ensure!(*old == c, "name {t:?} had code {old}, now {c}"); }
        else {
            ensure!(used.insert(c), "names {t:?} and {:?} share code {c}", seen.iter().find(|x| *x.1 == c).unwrap().0);
            seen.insert(t.clone(), c);
        }
        ensure!(get_name(c).as_deref() == Some(t.as_str()), "the name of code {c} is {:?}, expected {t:?}", get_name(c));
        ensure!(Symbol::from_code(c).name().as_deref() == Some(t.as_str()), "the name of the symbol is {:?}, expected {t:?}", Symbol::from_code(c).name());
        ensure!(Symbol::try_from(c).map(|x| x.code()).ok() == Some(c), "code {c} is refused");
    }
    for (t, c) in &seen {
        ensure!(get_code(t).ok() == Some(*c), "the code of {t:?} changed from {c} to {:?}", get_code(t));
        ensure!(get_name(*c).as_deref() == Some(t.as_str()), "the name of code {c} is {:?}, expected {t:?}", get_name(*c));
    }
    for c in [0u32, 1, 50, 99, u32::MAX, u32::MAX - 1, 1 << 31, 1_000_000_000] {
        ensure!(get_name(c).is_none(), "code {c} was never given out, and has the name {:?}", get_name(c));
        ensure!(Symbol::try_from(c).is_err(), "code {c} was never given out, and is a symbol");
    }
    Ok(())
}
fn c06_threads(f: &[String]) -> Res {
    let n: usize = f[1].parse().unwrap();
    let per: usize = f[2].parse().unwrap();
    let tag = f[3].clone();
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|t| { let (bar, tag) = (bar.clone(), tag.clone()); std::thread::spawn(move || -> Result<Vec<(String, u32)>, String> {
        let mut out = vec![];
        bar.wait();
        for k in 0..per {
            // half of the names are shared by all threads, and asked for at about the same time
            let name = if k % 2 == 0 { format!("{tag}s{k}") } else { format!("{tag}t{t}k{k}") };
            let c = get_code(&name).map_err(s)?;
            let back = get_name(c);
            ensure!(back.as_deref() == Some(name.as_str()), "thread {t} was given code {c} for {name:?}, whose name is {back:?}");
            out.push((name, c));
        }
        Ok(out)
    }) }).collect();
    let mut by_name: BTreeMap<String, u32> = BTreeMap::new();
    let mut by_code: BTreeMap<u32, String> = BTreeMap::new();
    for h in hs {
        for (name, c) in h.join().map_err(|_| s("thread panicked"))?? {
            if let Some(o) = by_name.insert(name.clone(), c) { ensure!(o == c, "threads were given the codes {o} and {c} for {name:?}"); }
            if let Some(o) = by_code.insert(c, name.clone()) { ensure!(o == name, "{o:?} and {name:?} share code {c}"); }
        }
    }
    Ok(())
}

fn c19(f: &[String]) -> Res {
    let sys = [System::new(), System::new()];
    let cell: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    let mut model: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); 3];
    for (k, op) in f.iter().enumerate() {
        let (st, rest) = (op[..1].parse::<usize>().unwrap(), &op[2..]);
        match &op[1..2] {
            "n" => {
                let r = match st { 2 => cell.add_symbol(rest), i => sys[i].add_symbol(rest) };
                if rest.trim().is_empty() { ensure!(r.is_err(), "a blank name was added as {:?}", r); } else {
                    let c = r.map_err(|e| format!("adding {rest:?}: {e}"))?.code();
                    ensure!(c == sym(rest.trim()).code(), "adding {rest:?} returned another symbol");
                    model[st].insert(c);
                }
            }
            "s" => {
                let y = sym(rest);
                let r = match st { 2 => cell.add_symbol(y), i => sys[i].add_symbol(y) }.map_err(|e| format!("adding a symbol: {e}"))?;
                ensure!(r.code() == y.code(), "adding a symbol returned another one");
                model[st].insert(y.code());
            }
            "c" => {
                // a symbol made from a code, with or without a name
                let y = Symbol::from_code(rest.parse().unwrap());
                let r = match st { 2 => cell.add_symbol(y), i => sys[i].add_symbol(y) }.map_err(|e| format!("adding a symbol: {e}"))?;
                ensure!(r.code() == y.code(), "adding a symbol returned another one");
                model[st].insert(y.code());
            }
            "r" if st < 2 => {
                let r = Rule::parse(rest);
                sys[st].add_production(r.build()).map_err(s)?;
                model[st].extend(r.pre_codes()); model[st].insert(sym(&r.target).code()); model[st].extend(r.post_codes());
                for b in &r.bodies { model[st].extend(word_codes(&b.1)); }
            }
            "p" => {
                // parse a rule and add it, with its symbols, to a store of rules and a store of symbols
                let r = Rule::parse(rest);
                let (h, b) = r.plain();
                let store: RefCell<Vec<Production>> = RefCell::new(vec![]);
                let t = format!("{h}->{b}");
                match st { 2 => rusty_systems::parser::parse_and_add_production(&cell, &store, &t), i => rusty_systems::parser::parse_and_add_production(&sys[i], &store, &t) }.map_err(s)?;
                ensure!(store.borrow().len() == 1, "the rule store holds {} rules", store.borrow().len());
                model[st].extend(r.pre_codes()); model[st].insert(sym(&r.target).code()); model[st].extend(r.post_codes());
                for b in &r.bodies[..1] { model[st].extend(word_codes(&b.1)); }
            }
            "b" if st < 2 => { ensure!(sys[st].add_production("A B").is_err(), "a malformed rule was added"); }
            "d" if st < 2 => { let _ = sys[st].derive_once(pstr(rest)); }
            _ => {}
        }
        for (i, m) in model.iter().enumerate() {
            for name in ["A", "B", "C", "D", "E", "Z", "never", " A ", "A\n", "", " ", "a", "b", "AB", "A B", "AA", "code:7", "code:0", "\u{3000}A\u{a0}", "Z9"] {
                let got = match i { 2 => cell.get_symbol(name), i => sys[i].get_symbol(name) };
                let want = if name.trim().is_empty() { None } else { Some(sym(name.trim()).code()).filter(|c| m.contains(c)) };
                ensure!(got.map(|x| x.code()) == want, "after operation {k} ({op}) store {i} answers {:?} for {name:?}, expected {want:?}", got.map(|x| x.code()));
            }
            for c in m { let Some(n) = get_name(*c) else { continue }; let got = match i { 2 => cell.get_symbol(&n), i => sys[i].get_symbol(&n) }; ensure!(got.map(|x| x.code()) == Some(*c), "after operation {k} ({op}) store {i} does not know {n:?}"); }
            let len = match i { 2 => cell.borrow().len(), i => sys[i].symbol_len() };
            ensure!(len == m.len(), "after operation {k} ({op}) store {i} has {len} symbols, expected {}", m.len());
        }
    }
    Ok(())
}
fn c19_family(f: &[String]) -> Res {
    let mut b = SystemFamily::define();
    let mut want = BTreeSet::new();
    for (k, n) in f[1..].iter().enumerate() { b = if k % 2 == 0 { b.with_terminal(n.as_str(), Some("d")) } else { b.with_production(n.as_str(), None) }; want.insert(sym(n.trim()).code()); }
    let fam = b.build("some family").map_err(s)?;
    let y = System::of_family(fam).map_err(|e| format!("of_family: {e}"))?;
    ensure!(y.symbol_len() == want.len(), "a system of a family with {} symbols has {}", want.len(), y.symbol_len());
    for n in &f[1..] { ensure!(y.get_symbol(n).map(|x| x.code()) == Some(sym(n.trim()).code()), "symbol {n:?} of the family is missing"); }
    ensure!(y.get_symbol("not there").is_none() && y.production_len() == 0, "a fresh system knows too much");
    Ok(())
}

pub fn check(prop: &str, f: &[String]) -> Res {
    match prop {
        "C05" => if f[0] == "threads" { c05_threads(f) } else { c05(f) },
        "C06" => c06(f),
        "C19" => if f[0] == "family" { c19_family(f) } else { c19(&f[1..]) },
        _ => unreachable!(),
    }
}

const ABC: [&str; 3] = ["A", "B", "C"];
pub fn rname(r: &mut Rng) -> String {
    let pool = ["A", "B", "a", "AB", "A B", " A", "A ", "\tA\n", "", " ", "\u{3000}", "\u{3000}A\u{a0}", "é", "e\u{301}", "\u{1F33F}", "-", "->", "code:100", "0", "00", "0.5", "NaN", "A\u{0}", "\u{feff}A", "A\u{200b}", "Forward", "forward", "[", "]", "\u{85}x", "x\u{85}y", "\r\n"];
    let mut t = String::new();
    for _ in 0..r.range(1, 3) { t.push_str(pool[r.below(pool.len())]); if r.chance(1, 2) { break; } }
    if r.chance(1, 6) { t = format!("n{}", r.below(5000)); }
    if r.chance(1, 40) { t = t.repeat(r.range(10, 3000)); }
    t
}

pub fn gen(prop: &str, g: &mut Gen) {
    match prop {
        "C05" => {
            let base = ["~<A>~->-:m1", "A<A>~->-:m2", "~<A>B->-:m3", "<A>~->-:m4", "~<B>~->0.5:m5 A|-:m6", "~<A>~->0.25:m7", "!A B", "!", "A<A>B->-:m8", "~<A>->-:"];
            for a in base { for b in base { for c in base {
                g.each(&[s("A/A A/B A/A B/A A B/B A B A"), s(a), s(b), s(c), s(a)]);
            } } }
            for t in ["!-> A", "!A ->2 B", "!A -> -1 B", "!A -> 0 B", "!A B -> C", "!< -> A", "!A < -> B", "! ", "!A", "!->", "!A B < C D > E -> F", "!A -> 1.5"] { g.each(&[s("A"), s("~<A>~->-:B"), s(t), s("~<A>~->-:C")]); }
            for _ in 0..g.count(6000) {
                let r = &mut g.rng;
                let n = if r.chance(1, 30) { r.range(40, 160) } else { r.range(1, 12) };
                let strings: Vec<String> = (0..r.range(1, 3)).map(|_| rstring(r, &ABC, 6)).collect();
                let mut f = vec![strings.join("/")];
                for k in 0..n {
                    let mut rule = rrule(r, &ABC, 2, 3, 3);
                    if n > 20 && r.chance(2, 3) { rule.target = format!("T{}", r.below(200)); }
                    for (i, b) in rule.bodies.iter_mut().enumerate() { b.1 = format!("{} m{k}x{i}", b.1).trim().to_string(); }
                    if r.chance(1, 3) { rule.bodies.truncate(1); f.push(format!("+{}", rule.text())); } else if r.chance(1, 12) { f.push(s(["!A B", "!", "!A -> 0 B"][r.below(3)])); } else { f.push(rule.text()); }
                }
                g.one(&f);
            }
            for k in 0..g.count(24) { let n = 2 + k % 7; g.one(&[s("threads"), s(n), s(40)]); }
        }
        "C06" => {
            g.each(&[s("names"), s("A"), s(" A"), s("A "), s("a"), s("AA"), s(""), s("B"), s(" "), s("A B"), s("\n"), s("A  B")]);
            for _ in 0..g.count(1500) { let r = &mut g.rng; let n = r.range(1, 40); let mut f = vec![s("names")]; for _ in 0..n { f.push(rname(r)); } g.one(&f); }
            let big: Vec<String> = std::iter::once(s("names")).chain((0..3000).map(|i| format!("big{i}"))).chain((0..3000).rev().map(|i| format!("\tbig{i} "))).collect();
            g.one(&big);
            // more names than 16 bits can number
            if g.is_shard(0) { g.one(&[s("many"), s(if g.thorough { 300_000 } else { 70_000 }), s("many")]); }
            for k in 0..g.count(160) { let n = 2 + k % 7; let tag = format!("z{}_{}_", k, g.rng.below(1_000_000)); g.one(&[s("threads"), s(n), s(300), tag]); }
        }
        "C19" => {
            let ops = ["0nA", "0sB", "1nA", "2nA", "2sC", "0r~<A>B->-:C D", "1rA<B>C->-:D|-:E", "2p~<A>~->-:B C", "0pC<D>E->0.5:A", "0b", "0n ", "1n", "0n A", "2n\tB", "0dA B", "1sA", "0c4000000000", "1c4000000001", "2c3999999999", "0c0", "2c7", "0na", "2nAB", "1n\u{3000}A"];
            for a in ops { for b in ops { for c in ops { g.each(&[s("ops"), s(a), s(b), s(c)]); } } }
            for _ in 0..g.count(1500) {
                let r = &mut g.rng;
                let n = r.range(3, 30);
                let mut f = vec![s("ops")];
                for _ in 0..n { f.push(match r.below(8) { 0 => format!("{}r{}", r.below(2), rrule(r, &ABC, 2, 3, 3).text()), 1 => format!("{}n{}", r.below(3), rname(r)), 2 => format!("{}nQ{}", r.below(3), r.below(400)), 3 => format!("{}c{}", r.below(3), [0u32, 1, 7, 99, 4_000_000_000, u32::MAX, u32::MAX - 1, 1 << 31, 3_000_000_000 + r.below(9) as u32][r.below(9)]), _ => s(ops[r.below(ops.len())]) }); }
                g.one(&f);
            }
            for _ in 0..g.count(300) { let r = &mut g.rng; let mut f = vec![s("family")]; for _ in 0..r.range(0, 9) { f.push(s(["A", "B", "C", " A", "[", "Forward"][r.below(6)])); } g.one(&f); }
        }
        _ => unreachable!(),
    }
}
