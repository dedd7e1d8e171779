//! C01, C02 (derivation), C03 (matching), C17 (enumeration), C18 (equality and hashing)
use crate::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::*;
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::system;
use std::collections::{BTreeSet, HashSet};

pub fn merge_rules(rules: &[Rule]) -> Vec<Rule> {
    let mut out: Vec<Rule> = vec![];
    for r in rules {
        let same = |a: &Rule, b: &Rule| a.target == b.target && a.pre.as_deref().map(words) == b.pre.as_deref().map(words) && a.post.as_deref().map(words) == b.post.as_deref().map(words);
        match out.iter_mut().find(|x| same(x, r)) { Some(x) => x.bodies.extend(r.bodies.clone()), None => out.push(r.clone()) }
    }
    out
}

enum Api { Slice(Vec<Production>), System(System) }
impl Api {
    fn new(kind: &str, rules: &[Rule]) -> (Api, Vec<Rule>) {
        if kind == "slice" { return (Api::Slice(rules.iter().map(|r| r.build()).collect()), rules.to_vec()); }
        let s = System::new();
        for r in rules { s.add_production(r.build()).expect("add_production"); }
        (Api::System(s), merge_rules(rules))
    }
    fn once(&self, s: ProductionString) -> Result<ProductionString, Error> { match self { Api::Slice(p) => system::derive_once(s, p), Api::System(y) => y.derive_once(s) } }
    fn derive(&self, s: ProductionString, n: usize) -> Result<ProductionString, Error> {
        match self { Api::Slice(p) => system::derive(s, p, RunSettings::for_max_iterations(n)), Api::System(y) => y.derive(s, RunSettings::from(n)) }
    }
}
struct Compiled<'a> { rules: &'a [Rule], t: Vec<(Vec<u32>, u32, Vec<u32>, Vec<Vec<u32>>)> }
impl<'a> Compiled<'a> {
    fn new(rules: &'a [Rule]) -> Self { Compiled { rules, t: rules.iter().map(|r| (r.pre_codes(), sym(&r.target).code(), r.post_codes(), r.bodies.iter().map(|b| word_codes(&b.1)).collect())).collect() } }
    fn first(&self, s: &[u32], i: usize) -> Option<usize> {
        self.t.iter().position(|(p, t, q, _)| i < s.len() && s[i] == *t && s[..i].ends_with(p) && s[i + 1..].starts_with(q))
    }
    /// per position: the alternatives
    fn contributions(&self, s: &[u32]) -> Vec<Vec<Vec<u32>>> {
        (0..s.len()).map(|i| match self.first(s, i) { None => vec![vec![s[i]]], Some(k) => self.t[k].3.clone() }).collect()
    }
    fn may_fail(&self, s: &[u32]) -> bool { (0..s.len()).any(|i| self.first(s, i).map(|k| self.rules[k].fails() != Some(false)).unwrap_or(false)) }
    fn must_fail(&self, s: &[u32]) -> bool { (0..s.len()).any(|i| self.first(s, i).map(|k| self.rules[k].fails() == Some(true)).unwrap_or(false)) }
    fn deterministic(&self) -> bool { self.t.iter().all(|t| t.3.iter().all(|b| b == &t.3[0])) }
}
/// is `out` a left to right concatenation of one alternative per position?
fn composes(alts: &[Vec<Vec<u32>>], out: &[u32]) -> bool {
    let mut at: BTreeSet<usize> = BTreeSet::from([0]);
    for a in alts {
        let mut n = BTreeSet::new();
        for p in &at { for x in a { if out[*p..].starts_with(x) { n.insert(p + x.len()); } } }
        if n.is_empty() { return false; }
        at = n;
    }
    at.contains(&out.len())
}

pub fn check(prop: &str, f: &[String]) -> Res {
    match prop {
        "C01" => {
            let rules: Vec<Rule> = f[2..].iter().map(|r| Rule::parse(r)).collect();
            let (api, merged) = Api::new(&f[0], &rules);
            let c = Compiled::new(&merged);
            for text in f[1].split('/') {
                let input = pstr(text);
                let sc = codes(&input);
                match api.once(input) {
                    Err(e) => ensure!(c.may_fail(&sc), "the step of [{text}] fails ({e}), though no rule that applies can fail"),
                    Ok(out) => {
                        let o = codes(&out);
                        let alts = c.contributions(&sc);
                        ensure!(composes(&alts, &o), "the step of [{text}] gives [{}]; the contributions are {:?}", show_codes(&o), alts.iter().map(|a| a.iter().map(|x| show_codes(x)).collect::<Vec<_>>()).collect::<Vec<_>>());
                    }
                }
            }
            Ok(())
        }
        "C02" => {
            if f[0] == "chain" {
                // a walk over symbols that ends, sooner or later, in symbols that nothing leaves: after this many steps every
                // symbol has got there, except with a probability below 1e-15
                let n: usize = f[2].parse().unwrap();
                let rules: Vec<Rule> = f[5..].iter().map(|r| Rule::parse(r)).collect();
                let (api, _) = Api::new(&f[1], &rules);
                let end: BTreeSet<u32> = codes(&pstr(&f[4])).into_iter().collect();
                for _ in 0..6 {
                    let out = api.derive(pstr(&f[3]), n).map_err(|e| format!("deriving [{}]: {e}", f[3]))?;
                    ensure!(codes(&out).iter().all(|c| end.contains(c)), "after {n} steps from [{}], the string is [{}]: fewer steps were taken", f[3], out);
                }
                return Ok(());
            }
            if f[0] == "grow" {
                // rules of a single body each, without contexts: long strings
                let n: usize = f[2].parse().unwrap();
                let rules: Vec<Rule> = f[4..].iter().map(|r| Rule::parse(r)).collect();
                let (api, merged) = Api::new(&f[1], &rules);
                let c = Compiled::new(&merged);
                let start = pstr(&f[3]);
                let mut cur = codes(&start);
                let map: std::collections::HashMap<u32, Vec<u32>> = c.t.iter().map(|t| (t.1, t.3[0].clone())).collect();
                for _ in 0..n {
                    let mut next = Vec::with_capacity(cur.len() * 2);
                    for x in cur { match map.get(&x) { Some(b) => next.extend(b), None => next.push(x) } }
                    cur = next;
                }
                let out = api.derive(start, n).map_err(|e| format!("deriving [{}]: {e}", f[3]))?;
                let o = codes(&out);
                let at = o.iter().zip(&cur).position(|(a, b)| a != b);
                ensure!(o == cur, "{n} steps from [{}] give {} symbols, the derivation {} (first difference at {at:?})", f[3], cur.len(), o.len());
                return Ok(());
            }
            if f[0] == "settings" {
                let n: usize = f[1].parse().unwrap();
                ensure!(RunSettings::default().max_iterations == 10, "the default limit is {}", RunSettings::default().max_iterations);
                ensure!(RunSettings::from(n).max_iterations == n && RunSettings::for_max_iterations(n).max_iterations == n, "limit {n} is kept as {} / {}", RunSettings::from(n).max_iterations, RunSettings::for_max_iterations(n).max_iterations);
                let r = [Rule::parse("~<A>~->-:A B")];
                for k in ["slice", "system"] {
                    let (api, _) = Api::new(k, &r);
                    let out = api.derive(pstr(""), n).map_err(|e| format!("empty string: {e}"))?;
                    ensure!(out.is_empty(), "the empty string derives to something");
                }
                return Ok(());
            }
            let n: usize = f[1].parse().unwrap();
            let rules: Vec<Rule> = f[3..].iter().map(|r| Rule::parse(r)).collect();
            let (api, merged) = Api::new(&f[0], &rules);
            let c = Compiled::new(&merged);
            for text in f[2].split('/') {
                let start = pstr(text);
                let mut set: BTreeSet<Vec<u32>> = BTreeSet::from([codes(&start)]);
                let (mut may, mut must) = (false, false);
                let mut work = 0usize;
                for _ in 0..n {
                    if set.iter().any(|s| c.may_fail(s)) { may = true; }
                    if set.iter().all(|s| c.must_fail(s)) { must = true; break; }
                    let mut next = BTreeSet::new();
                    for s in &set {
                        let mut outs: BTreeSet<Vec<u32>> = BTreeSet::from([vec![]]);
                        for a in c.contributions(s) {
                            let mut no = BTreeSet::new();
                            for o in &outs { for x in &a { let mut v = o.clone(); v.extend(x); no.insert(v); } }
                            outs = no;
                            work += outs.len();
                            if outs.len() > 1 { work += outs.iter().map(|o| o.len()).sum::<usize>(); }
                            if work > 400_000 || outs.iter().any(|o| o.len() > 20_000) { return Ok(()); }
                        }
                        next.extend(outs);
                        if next.len() > 3000 { return Ok(()); }
                    }
                    set = next;
                }
                let out = api.derive(start.clone(), n);
                match &out {
                    Err(e) => ensure!(may, "derivation of [{text}] with limit {n} fails ({e})"),
                    Ok(o) => {
                        ensure!(!must, "derivation of [{text}] with limit {n} succeeds, though every sequence of steps fails");
                        ensure!(set.contains(&codes(o)), "derivation of [{text}] with limit {n} gives [{}], not what {n} steps give: {:?}", show_codes(&codes(o)).chars().take(300).collect::<String>(), set.iter().take(4).map(|s| show_codes(s).chars().take(300).collect::<String>()).collect::<Vec<_>>());
                    }
                }
                if c.deterministic() && n <= 64 {
                    let mut cur = Ok(start.clone());
                    for _ in 0..n { cur = cur.and_then(|x| api.once(x)); }
                    match (&cur, &out) {
                        (Ok(a), Ok(b)) => ensure!(a == b, "{n} single steps differ from a derivation with limit {n} for [{text}]"),
                        (a, b) => ensure!(a.is_err() == b.is_err(), "{n} single steps and a derivation disagree about failing for [{text}]"),
                    }
                }
                if n == 10 {
                    if let Api::System(y) = &api {
                        let d = y.derive(start.clone(), RunSettings::default());
                        if c.deterministic() { ensure!(d.as_ref().map(codes).ok() == out.as_ref().map(codes).ok(), "the default settings differ from a limit of 10"); }
                    }
                }
            }
            Ok(())
        }
        "C03" => {
            let i: usize = f[2].parse().unwrap();
            let string = pstr(&f[1]);
            let sc = codes(&string);
            let rules: Vec<Rule> = f[3..].iter().map(|r| Rule::parse(r)).collect();
            let built: Vec<Production> = rules.iter().map(|r| r.build()).collect();
            for (r, b) in rules.iter().zip(&built) {
                let want = r.matches(&sc, i);
                ensure!(b.head().matches(&string, i) == want, "head {} at {i} of [{}]: matches says {}", r.text(), f[1], !want);
                ensure!(b.matches(&string, i) == want, "rule {} at {i} of [{}]: matches says {}", r.text(), f[1], !want);
            }
            let want = rules.iter().position(|r| r.matches(&sc, i));
            let got = system::find_matching(&built, &string, i).map(|p| built.iter().position(|q| std::ptr::eq(p, q)));
            ensure!(got == want.map(Some), "find_matching at {i} of [{}] gives rule {got:?}, the first that matches is {want:?}", f[1]);
            Ok(())
        }
        "C17" => {
            let r = Rule::parse(&f[1]);
            let p = r.build();
            let (got, all, want): (Vec<u32>, Vec<u32>, Vec<u32>) = match f[0].as_str() {
                "string" => { let x = pstr(&r.bodies[0].1); (x.all_symbols_iter().map(|s| s.code()).collect(), x.all_symbols::<Vec<_>>().iter().map(|s| s.code()).collect(), word_codes(&r.bodies[0].1)) }
                "head" => { let mut w = r.pre_codes(); w.push(sym(&r.target).code()); w.extend(r.post_codes()); (p.head().all_symbols_iter().map(|s| s.code()).collect(), p.head().all_symbols::<Vec<_>>().iter().map(|s| s.code()).collect(), w) }
                "body" => { let k = f[2].parse::<usize>().unwrap() % r.bodies.len(); let b = &p.all_bodies()[k]; (b.all_symbols_iter().map(|s| s.code()).collect(), b.all_symbols::<Vec<_>>().iter().map(|s| s.code()).collect(), word_codes(&r.bodies[k].1)) }
                _ => { let mut w = r.pre_codes(); w.push(sym(&r.target).code()); w.extend(r.post_codes()); for b in &r.bodies { w.extend(word_codes(&b.1)); }
                    (p.all_symbols_iter().map(|s| s.code()).collect(), p.all_symbols::<Vec<_>>().iter().map(|s| s.code()).collect(), w) }
            };
            ensure!(got == want, "enumerating the {} of {} gives [{}], expected [{}]", f[0], f[1], show_codes(&got), show_codes(&want));
            ensure!(all == want, "collecting the {} of {} gives [{}], expected [{}]", f[0], f[1], show_codes(&all), show_codes(&want));
            if f[0] == "string" {
                let x = pstr(&r.bodies[0].1);
                let a: Vec<u32> = (&x).into_iter().map(|s| s.code()).collect();
                let b: Vec<u32> = x.iter().map(|s| s.code()).collect();
                let d: Vec<u32> = (0..x.len()).map(|i| x[i].code()).collect();
                let e: Vec<u32> = x.clone().into_iter().map(|s| s.code()).collect();
                ensure!(a == want && b == want && d == want && e == want, "iterating the string [{}]: {a:?} {b:?} {d:?} {e:?}, expected {want:?}", r.bodies[0].1);
            }
            Ok(())
        }
        "C18" => {
            fn pair<T: PartialEq + Eq + std::hash::Hash + Clone>(a: &T, b: &T, want: bool, what: &str) -> Res {
                ensure!((a == b) == want, "{what}: equality says {}, expected {want}", a == b);
                ensure!((b == a) == want, "{what}: equality the other way round says {}, expected {want}", b == a);
                ensure!((a != b) != want, "{what}: inequality says {}", a != b);
                ensure!(*a == a.clone() && *b == b.clone() && a == a && b == b, "{what}: not equal to itself or its clone");
                ensure!(hash_of(a) == hash_of(&a.clone()), "{what}: a clone hashes differently");
                if want { ensure!(hash_of(a) == hash_of(b), "{what}: equal, but the hashes differ"); }
                let set: HashSet<T> = HashSet::from([a.clone()]);
                ensure!(set.contains(b) == want, "{what}: a hash set holding one says contains(other) = {}", set.contains(b));
                let set: HashSet<T> = [a.clone(), b.clone()].into_iter().collect();
                ensure!(set.len() == if want { 1 } else { 2 }, "{what}: a hash set of both has {} elements", set.len());
                Ok(())
            }
            match f[0].as_str() {
                "code" => {
                    let (a, b): (u32, u32) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                    pair(&Symbol::from_code(a), &Symbol::from_code(b), a == b, &format!("symbols of codes {a} and {b}"))
                }
                "symbol" => {
                    let (a, b) = (sym(&f[1]), sym(&f[2]));
                    pair(&a, &b, a.code() == b.code(), &format!("symbols {} and {}", f[1], f[2]))
                }
                "string" => {
                    let want = words(&f[1]) == words(&f[2]);
                    pair(&pstr(&f[1]), &pstr(&f[2]), want, &format!("strings [{}] and [{}]", f[1], f[2]))?;
                    // built in another way
                    let mut p = ProductionString::new();
                    for w in words(&f[1]) { p.push_symbol(sym(w)); }
                    pair(&p, &pstr(&f[2]), want, &format!("strings [{}] (pushed) and [{}]", f[1], f[2]))
                }
                "head" => {
                    let (a, b) = (Rule::parse(&f[1]), Rule::parse(&f[2]));
                    let k = |r: &Rule| (r.pre.as_deref().map(|x| words(x).join(" ")), r.target.clone(), r.post.as_deref().map(|x| words(x).join(" ")));
                    pair(&a.head(), &b.head(), k(&a) == k(&b), &format!("heads {} and {}", f[1], f[2]))
                }
                _ => {
                    let (a, b) = (Rule::parse(&f[1]), Rule::parse(&f[2]));
                    let k = |r: &Rule| (r.pre.as_deref().map(|x| words(x).join(" ")), r.target.clone(), r.post.as_deref().map(|x| words(x).join(" ")));
                    pair(&a.build(), &b.build(), k(&a) == k(&b), &format!("rules {} and {}", f[1], f[2]))
                }
            }
        }
        _ => unreachable!(),
    }
}

/// all strings over the alphabet of at most `max` symbols, as "A B"
pub fn all_strings(alpha: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut n = vec![];
        for l in &last { for a in alpha { n.push(if l.is_empty() { s(a) } else { format!("{l} {a}") }); } }
        out.extend(n.clone());
        last = n;
    }
    out
}
pub fn rstring(r: &mut Rng, alpha: &[&str], max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| alpha[r.below(alpha.len())]).collect::<Vec<_>>().join(" ")
}
pub fn rctx(r: &mut Rng, alpha: &[&str], max: usize) -> Option<String> { if r.chance(2, 5) { None } else { Some(rstring(r, alpha, max)) } }
pub fn rchances(r: &mut Rng, n: usize) -> Vec<Option<f32>> {
    let mut left = 1.0f32;
    (0..n).map(|_| match r.below(8) {
        0..=3 => None,
        4 => Some(0.25),
        5 => Some((r.unit() as f32).max(0.001)),
        _ => { let c = (left * r.unit() as f32 * 0.9).max(0.0005); left -= c; Some(c) }
    }).collect()
}
pub fn rrule(r: &mut Rng, alpha: &[&str], ctx: usize, body: usize, max_bodies: usize) -> Rule {
    let n = r.range(1, max_bodies);
    let ch = rchances(r, n);
    Rule { pre: rctx(r, alpha, ctx), target: s(alpha[r.below(alpha.len())]), post: rctx(r, alpha, ctx), bodies: ch.into_iter().map(|c| (c, rstring(r, alpha, body))).collect() }
}

const AB: [&str; 2] = ["A", "B"];
const ABC: [&str; 4] = ["A", "B", "C", "[x]"];

pub fn gen(prop: &str, g: &mut Gen) {
    let apis = ["slice", "system"];
    match prop {
        "C01" => {
            // every pair of small rules over two symbols, on every string of up to 4 symbols
            let strings = all_strings(&AB, 4).join("/");
            let ctxs = ["~", "", "A", "B", "A B"];
            let mut one: Vec<String> = vec![];
            for p in ctxs { for t in AB { for q in ctxs { for b in ["", "A B"] { one.push(format!("{p}<{t}>{q}->-:{b}")); } } } }
            for (i, a) in one.iter().enumerate() {
                for (j, b) in one.iter().enumerate() {
                    let bb = b.replace("->-:A B", "->-:B B C");
                    g.each(&[s(apis[(i + j) % 2]), strings.clone(), a.clone(), bb]);
                }
            }
            for _ in 0..g.count(6000) {
                let r = &mut g.rng;
                let alpha: &[&str] = if r.chance(1, 2) { &AB } else { &ABC };
                let n = r.range(0, 5);
                let max_bodies = if r.chance(1, 3) { 3 } else { 1 };
                let mut rules: Vec<String> = (0..n).map(|_| rrule(r, alpha, 3, 4, max_bodies).text()).collect();
                if r.chance(1, 3) { for x in rules.iter_mut() { if r.chance(1, 2) { let h = x.split("->").next().unwrap().to_string(); *x = format!("{h}->-:"); } } }
                let k = r.range(1, 3);
                let strings: Vec<String> = (0..k).map(|_| rstring(r, alpha, 9)).collect();
                let api = apis[r.below(2)];
                let mut f = vec![s(api), strings.join("/")];
                f.extend(rules);
                g.one(&f);
            }
            // more symbols than 16 bits can number, with contexts all along the string
            for (k, n) in [65_535usize, 65_537, 70_000, 131_100].into_iter().enumerate() {
                if !g.thorough && k % 2 == 0 { continue; }
                let string = (0..n).map(|i| AB[(i * i / 7 + i / 3) % 2]).collect::<Vec<_>>().join(" ");
                g.each(&[s(apis[(k / 2) % 2]), string, s("A B<A>B->-:C"), s("B<A>~->-:"), s("~<B>A A->-:B C B")]);
            }
            // long strings, long contexts, long bodies, many rules
            for _ in 0..g.count(160) {
                let r = &mut g.rng;
                let size = [33, 65, 129, 257, 513, 1025, 2100, 5000][r.below(8)];
                let len = r.range(size - 3, size + 3);
                let string = (0..len).map(|_| ABC[r.below(4)]).collect::<Vec<_>>();
                let mut rules: Vec<String> = vec![];
                for _ in 0..r.range(0, 4) { rules.push(rrule(r, &ABC, 3, 40, 1).text()); }
                // a rule whose left or right context is a long piece of the string
                if r.chance(1, 2) {
                    let cl = [4, 9, 17, 40, 300][r.below(5)].min(len - 1);
                    let at = r.range(cl, len - 1);
                    rules.insert(0, format!("{}<{}>~->-:Y", string[at - cl..at].join(" "), string[at]));
                    let at = r.below(len - cl);
                    rules.insert(0, format!("~<{}>{}->-:Z Z", string[at], string[at + 1..at + 1 + cl].join(" ")));
                }
                if r.chance(1, 3) { for k in 0..r.range(5, 300) { let q = format!("~<Q{k}>{}->-:W{k}", if k % 2 == 0 { "~" } else { "A" }); let at = r.below(rules.len() + 1); rules.insert(at, q); } }
                let api = apis[r.below(2)];
                let mut f = vec![s(api), string.join(" ")];
                f.extend(rules);
                g.one(&f);
            }
        }
        "C02" => {
            for n in [0usize, 1, 2, 9, 10, 11, 255, 256, 65536, usize::MAX] { g.each(&[s("settings"), s(n)]); }
            let rulesets: Vec<Vec<&str>> = vec![
                vec!["~<A>~->-:A B", "~<B>~->-:A"], vec!["~<A>~->-:B", "~<B>~->-:A"], vec!["~<A>~->-:"], vec!["~<A>~->-:B", "~<B>~->-:"],
                vec!["~<A>~->-:B", "~<B>~->-:C", "~<C>~->-:A"], vec!["~<A>~->-:A"], vec![], vec!["A<A>~->-:B", "~<B>~->-:A"], vec!["~<A>B->-:B", "A<B>~->-:A"],
                vec!["~<A>~->-:B", "~<B>~->-:C", "~<C>~->0.75:A|0.75:B"], vec!["~<A>~->-:B A", "~<B>~->0.75:A|0.75:B"], vec!["~<A>~->-:|-:A A"], vec!["~<A>~->0.5:B|0.5:A", "~<B>~->-:A"],
                vec!["~<A>~->-:B", "~<B>~->-:C D", "~<C>~->-:", "~<D>~->-:A"], vec!["~<A>~->-:B B", "B<B>~->-:", "~<B>B->-:A"],
                vec!["~<0>~->-:1", "~<1>~->-:2", "~<2>~->-:3", "~<3>~->-:4", "~<4>~->-:5", "~<5>~->-:6", "~<6>~->-:7", "~<7>~->-:8", "~<8>~->-:9", "~<9>~->-:10", "~<10>~->-:11", "~<11>~->-:12"],
            ];
            for rs in &rulesets {
                for n in 0..=13usize {
                    for (k, st) in ["", "A", "B", "A B", "A A B", "B A A B", "C", "D A", "A A A A", "0", "0 0", "3 B"].iter().enumerate() {
                        let mut f = vec![s(apis[(n + k) % 2]), s(n), s(st)];
                        f.extend(rs.iter().map(s));
                        g.each(&f);
                    }
                }
            }
            for _ in 0..g.count(8000) {
                let r = &mut g.rng;
                let k = r.range(1, 4);
                let mb = if r.chance(1, 4) { 2 } else { 1 };
                let rules: Vec<String> = (0..k).map(|_| rrule(r, &AB, 1, if mb == 2 { 1 } else { 2 }, mb).text()).collect();
                let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 10, 3 => r.range(11, 40), _ => r.range(2, 9) };
                let k = r.range(1, 2);
                let strings: Vec<String> = (0..k).map(|_| rstring(r, &AB, 4)).collect();
                let api = apis[r.below(2)];
                let mut f = vec![s(api), s(n), strings.join("/")];
                f.extend(rules);
                g.one(&f);
            }
            // long runs of rules that do not grow
            for _ in 0..g.count(120) {
                let r = &mut g.rng;
                let m = r.range(2, 9);
                let rules: Vec<String> = (0..m).map(|i| format!("~<P{i}>~->-:P{}", (i + 1) % m)).collect();
                let n = [63, 64, 65, 100, 127, 128, 255, 256, 257, 500, 1000][r.below(11)] + r.below(3);
                let api = apis[r.below(2)];
                let mut f = vec![s(api), s(n), (0..r.range(1, 4)).map(|_| format!("P{}", r.below(m))).collect::<Vec<_>>().join(" ")];
                f.extend(rules);
                g.one(&f);
            }
            // more steps than 8 or 16 bits can count
            for (k, n) in [254usize, 255, 256, 257, 1023, 1024, 4099, 32_769, 65_535, 65_536, 65_537, 70_001].into_iter().enumerate() {
                g.each(&[s(apis[k % 2]), s(n), s("P0"), s("~<P0>~->-:P1"), s("~<P1>~->-:P2"), s("~<P2>~->-:P3"), s("~<P3>~->-:P4"), s("~<P4>~->-:P5"), s("~<P5>~->-:P6"), s("~<P6>~->-:P0")]);
            }
            // bodies that leave the string as it is for a while
            let chains: Vec<(&str, &str, Vec<&str>)> = vec![
                ("A", "B", vec!["~<A>~->0.5:A|0.5:B"]), ("A A A", "B", vec!["~<A>~->0.5:B|0.5:A"]),
                ("A", "C", vec!["~<A>~->0.3:B|0.3:A|0.4:C", "~<B>~->0.5:A|0.25:C|0.25:B"]), ("A", "C", vec!["~<A>~->0.6:B|0.4:C", "~<B>~->0.7:A|0.3:C"]),
                ("A B", "C D", vec!["~<A>~->0.5:A|0.5:C", "~<B>~->0.5:D|0.5:B"]), ("X A", "X C", vec!["X<A>~->0.5:A|0.5:C"]), ("A", "", vec!["~<A>~->0.5:A|0.5:"]),
                ("A", "E", vec!["~<A>~->0.5:B|0.5:A", "~<B>~->0.5:D|0.5:A", "~<D>~->0.5:E|0.5:D"]),
            ];
            for a in apis { for (start, end, rs) in &chains { for n in [700usize, 1001] {
                let mut f = vec![s("chain"), s(a), s(n), s(start), s(end)];
                f.extend(rs.iter().map(s));
                g.each(&f);
            } } }
            // strings of more symbols than 16 bits can count
            for a in apis {
                for (n, st, rs) in [(16, "A", vec!["~<A>~->-:A A"]), (17, "A", vec!["~<A>~->-:A A"]), (18, "A B", vec!["~<A>~->-:A A"]), (11, "A", vec!["~<A>~->-:A B A"]), (25, "A", vec!["~<A>~->-:A B", "~<B>~->-:A"]), (9, "A", vec!["~<A>~->-:A A A A", "~<B>~->-:"]), (70, "A", vec!["~<A>~->-:A B B B B B B B B B B B B B B B B B B B B B B B B"])] {
                    let mut f = vec![s("grow"), s(a), s(n), s(st)];
                    f.extend(rs.iter().map(s));
                    g.each(&f);
                }
            }
            if g.thorough || g.deep { for a in apis { g.each(&[s("grow"), s(a), s(22), s("A"), s("~<A>~->-:A A")]); } }
            // doubling, up to a large string
            for n in 0..15 { for a in apis { g.each(&[s(a), s(n), s("A"), s("~<A>~->-:A A")]); } }
        }
        "C03" => {
            let ctxs: Vec<String> = std::iter::once(s("~")).chain(all_strings(&AB, 2)).collect();
            let idx = |n: usize| (0..=n + 2).chain([usize::MAX, usize::MAX - 1, 1 << 32]).collect::<Vec<_>>();
            let strings = all_strings(&AB, 4);
            for p in &ctxs { for q in &ctxs { for t in AB { for st in &strings {
                for i in idx(words(st).len()) { g.each(&[s("m"), st.clone(), s(i), format!("{p}<{t}>{q}->-:")]); }
            } } } }
            for _ in 0..g.count(40000) {
                let r = &mut g.rng;
                let alpha: &[&str] = if r.chance(2, 3) { &AB } else { &ABC };
                let big = r.chance(1, 10);
                let st = rstring(r, alpha, if big { 60 } else { 9 });
                let w = words(&st);
                let i = if r.chance(1, 12) { w.len() + r.below(3) } else { r.below(w.len().max(1)) };
                let k = r.range(1, 4);
                let mut f = vec![s("m"), st.clone(), s(i)];
                for _ in 0..k {
                    let mut rule = rrule(r, alpha, if big { 12 } else { 4 }, 1, 1);
                    if i < w.len() && r.chance(2, 3) {
                        // contexts taken from the string, sometimes with one symbol changed or one too many
                        rule.target = s(w[i]);
                        if r.chance(3, 4) { let n = r.below(i + 1); let mut c: Vec<&str> = w[i - n..i].to_vec(); if r.chance(1, 4) && n > 0 { c[r.below(n)] = alpha[r.below(alpha.len())]; } if r.chance(1, 8) { c.insert(0, alpha[0]); } rule.pre = Some(c.join(" ")); }
                        if r.chance(3, 4) { let n = r.below(w.len() - i); let mut c: Vec<&str> = w[i + 1..i + 1 + n].to_vec(); if r.chance(1, 4) && n > 0 { c[r.below(n)] = alpha[r.below(alpha.len())]; } if r.chance(1, 8) { c.push(alpha[0]); } rule.post = Some(c.join(" ")); }
                    }
                    f.push(rule.text());
                }
                g.one(&f);
            }
            for _ in 0..g.count(60) {
                let r = &mut g.rng;
                let n = [64, 128, 256, 257, 600, 1100][r.below(6)];
                let w: Vec<&str> = (0..n).map(|_| AB[r.below(2)]).collect();
                let i = r.below(n);
                let mut f = vec![s("m"), w.join(" "), s(i)];
                let (a, b) = (r.below(i + 1), r.range(i + 1, n));
                let mut pre: Vec<&str> = w[a..i].to_vec();
                let mut post: Vec<&str> = w[i + 1..b].to_vec();
                match r.below(4) { 0 if !pre.is_empty() => { let k = [0, pre.len() - 1, r.below(pre.len())][r.below(3)]; pre[k] = if pre[k] == "A" { "B" } else { "A" }; } 1 if !post.is_empty() => { let k = [0, post.len() - 1, r.below(post.len())][r.below(3)]; post[k] = if post[k] == "A" { "B" } else { "A" }; } _ => {} }
                f.push(format!("{}<{}>{}->-:", pre.join(" "), w[i], post.join(" ")));
                g.one(&f);
            }
        }
        "C17" => {
            let ctxs: Vec<String> = std::iter::once(s("~")).chain(all_strings(&AB, 2)).collect();
            for p in &ctxs { for q in &ctxs { for b in ["-:", "-:A B", "-:B A A", "-:A|-:B", "-:A B|-:|-:B B", "-:|-:", "0.5:C A|0.25:A C|-:B"] {
                for k in ["string", "head", "body", "rule"] { g.each(&[s(k), format!("{p}<A>{q}->{b}"), s(1)]); g.each(&[s(k), format!("{p}<C>{q}->{b}"), s(0)]); }
            } } }
            for _ in 0..g.count(8000) {
                let r = &mut g.rng;
                let big = r.chance(1, 20);
                let mut rule = rrule(r, &ABC, if big { 70 } else { 4 }, if big { 300 } else { 5 }, if big { 40 } else { 5 });
                if r.chance(1, 4) { rule.target = s("T"); }
                let k = ["string", "head", "body", "rule", "rule"][r.below(5)];
                let n = r.below(9);
                g.one(&[s(k), rule.text(), s(n)]);
            }
            for n in [65_536usize, 65_537, 70_000] {
                let t = (0..n).map(|i| AB[(i / 3 + i / 7) % 2]).collect::<Vec<_>>().join(" ");
                for k in ["string", "body", "rule"] { g.each(&[s(k), format!("~<A>~->-:{t}|-:B"), s(3)]); }
                g.each(&[s("head"), format!("{t}<A>~->-:"), s(3)]); g.each(&[s("rule"), format!("~<A>{t}->-:"), s(3)]);
            }
        }
        "C18" => {
            let cs: Vec<u32> = vec![0, 1, 2, 99, 100, 101, 255, 256, 257, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
            for a in &cs { for b in &cs { g.each(&[s("code"), s(a), s(b)]); } }
            for a in ["A", "B", "AA", "a", "[", "é", "A1"] { for b in ["A", "B", "AA", "a", "[", "é", "A1"] { g.each(&[s("symbol"), s(a), s(b)]); } }
            let small = all_strings(&AB, 3);
            for a in &small { for b in &small { g.each(&[s("string"), a.clone(), b.clone()]); } }
            let ctxs: Vec<String> = std::iter::once(s("~")).chain(all_strings(&AB, 1)).chain([s("A B"), s("B A")]).collect();
            let mut heads = vec![];
            for p in &ctxs { for q in &ctxs { for t in AB { heads.push(format!("{p}<{t}>{q}->")); } } }
            for a in &heads { for b in &heads { g.each(&[s("head"), format!("{a}-:"), format!("{b}-:")]); } }
            for (i, a) in heads.iter().enumerate() { for (j, b) in heads.iter().enumerate() {
                let bodies = ["-:", "-:A", "-:B|-:A", "0.5:A"];
                g.each(&[s("rule"), format!("{a}{}", bodies[i % 4]), format!("{b}{}", bodies[(i / 4 + j) % 4])]);
            } }
            for _ in 0..g.count(4000) {
                let r = &mut g.rng;
                let n = r.range(1, 80);
                let a: Vec<&str> = (0..n).map(|_| ABC[r.below(4)]).collect();
                let mut b = a.clone();
                match r.below(5) { 0 => {} 1 => { b.pop(); } 2 => { let k = r.below(n); b[k] = ABC[r.below(4)]; } 3 => { let (i, j) = (r.below(n), r.below(n)); b.swap(i, j); } _ => { b.reverse(); } }
                let f = if r.chance(1, 2) { vec![s("string"), a.join(" "), b.join(" ")] } else {
                    let k = if r.chance(1, 2) { "head" } else { "rule" };
                    if r.chance(1, 2) { vec![s(k), format!("{}<A>~->-:", a.join(" ")), format!("{}<A>~->-:B", b.join(" "))] } else { vec![s(k), format!("~<A>{}->-:", a.join(" ")), format!("~<A>{}->-:", b.join(" "))] }
                };
                g.one(&f);
            }
        }
        _ => unreachable!(),
    }
}
