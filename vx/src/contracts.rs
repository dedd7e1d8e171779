//! Reader for the contract files (/verif/contracts/*.vx).
//!
//! Line based; a line starting with '@' is a directive, everything else is raw Verus text that
//! belongs to the directive before it. Lines starting with '@@' are comments.
use std::collections::BTreeMap;

#[derive(Debug, Default, Clone)]
pub struct FnContract {
    pub path: String,
    pub ret: String,
    pub attrs: String,
    /// requires / ensures / returns / decreases text, in that order, as written
    pub sig: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    /// (place, n) -> text; place is body_start, body_end, loop_before, loop_start, loop_end, loop_after
    pub at: BTreeMap<(String, usize), String>,
    /// additional generic/where text
    pub mutself: bool,
    /// the function takes part in the history of lock events: a ghost parameter is added
    pub world: bool,
    pub nloops: Option<usize>,
    pub locals: Vec<String>,
    pub file: String,
    pub line: usize,
}

#[derive(Debug, Default, Clone)]
pub struct Unit {
    pub name: String,
    pub verify: Vec<String>,
    pub trust: Vec<String>,
    pub specs: Vec<String>,
    pub types: Vec<String>,
    /// names (statics, accessors) that only the functions listed by @guard may mention
    pub guard: Vec<String>,
    /// functions whose contract in this unit is the one written under `@fn alt NAME`
    pub alts: Vec<String>,
    /// further methods that take the ghost parameter for the history of lock events
    pub reveal: Vec<String>, pub world: Vec<String>,
    /// types that are opaque elsewhere and as the code declares them here
    pub clear: Vec<String>,
}

#[derive(Debug, Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub specs: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub units: BTreeMap<String, Unit>,
    pub opaque: BTreeMap<String, String>,
    pub guarded: BTreeMap<String, Vec<String>>,
}

enum Sink { None, Spec(String), Sig, Loop(usize), Closure(usize), At(String, usize), Impl(String), Opaque(String) }

impl Contracts {
    pub fn load(dir: &str) -> Contracts {
        let mut out = Contracts::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).expect("contracts dir").filter_map(|e| e.ok())
            .map(|e| e.path()).filter(|p| p.extension().map(|e| e == "vx").unwrap_or(false)).collect();
        files.sort();
        for f in files {
            out.load_file(f.to_str().unwrap());
        }
        out
    }

    fn load_file(&mut self, file: &str) {
        let text = std::fs::read_to_string(file).unwrap();
        let mut cur: Option<FnContract> = None;
        let mut unit: Option<Unit> = None;
        let mut sink = Sink::None;
        for (ln, line) in text.lines().enumerate() {
            if line.starts_with("@@") { continue; }
            if let Some(d) = line.strip_prefix('@') {
                let mut it = d.splitn(2, char::is_whitespace);
                let word = it.next().unwrap();
                let rest = it.next().unwrap_or("").trim();
                match word {
                    "fn" => {
                        self.flush(&mut cur, &mut unit);
                        cur = Some(FnContract { path: rest.to_string(), file: file.to_string(), line: ln + 1, ..Default::default() });
                        sink = Sink::None;
                    }
                    "spec" => { self.flush(&mut cur, &mut unit); sink = Sink::Spec(rest.to_string()); self.specs.entry(rest.to_string()).or_default(); }
                    "impl" => { self.flush(&mut cur, &mut unit); sink = Sink::Impl(rest.to_string()); self.impls.entry(rest.to_string()).or_default(); }
                    "opaque" => { self.flush(&mut cur, &mut unit); sink = Sink::Opaque(rest.to_string()); self.opaque.entry(rest.to_string()).or_default(); }
                    "unit" => { self.flush(&mut cur, &mut unit); unit = Some(Unit { name: rest.to_string(), ..Default::default() }); sink = Sink::None; }
                    "verify" | "trust" | "use" | "types" | "frame" | "alt" | "clear" => {
                        let u = unit.as_mut().unwrap_or_else(|| panic!("{file}:{}: outside unit", ln + 1));
                        let v = match word { "verify" => &mut u.verify, "trust" => &mut u.trust, "use" => &mut u.specs, "frame" => &mut u.guard, "alt" => &mut u.alts, "clear" => &mut u.clear, _ => &mut u.types };
                        v.extend(rest.split(" | ").map(|s| s.trim().to_string()).filter(|s| !s.is_empty()));
                    }
                    "guard" => {
                        self.flush(&mut cur, &mut unit);
                        let (n, l) = rest.split_once(' ').unwrap_or((rest, ""));
                        self.guarded.insert(n.to_string(), l.split(" | ").map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect());
                    }
                    "ret" => cur.as_mut().unwrap().ret = rest.to_string(),
                    "attr" => { let c = cur.as_mut().unwrap(); c.attrs.push_str(&format!("#[{rest}]\n")); }
                    "world" => match (&mut cur, &mut unit) { (Some(c), _) => c.world = true, (None, Some(u)) => u.world.extend(rest.split_whitespace().map(String::from)), _ => panic!("{file}:{}: outside fn", ln + 1) },
                    "reveal" => unit.as_mut().unwrap_or_else(|| panic!("{file}:{}: outside unit", ln + 1)).reveal.extend(rest.split_whitespace().map(String::from)),
                    "mutself" => cur.as_mut().unwrap().mutself = true,
                    "nloops" => cur.as_mut().unwrap().nloops = Some(rest.parse().unwrap()),
                    "locals" => cur.as_mut().unwrap().locals = rest.split_whitespace().map(String::from).collect(),
                    "sig" => sink = Sink::Sig,
                    "requires" | "ensures" | "returns" | "decreases" => {
                        let c = cur.as_mut().unwrap_or_else(|| panic!("{file}:{}: outside fn", ln + 1));
                        c.sig.push_str(&format!("    {word}\n"));
                        if !rest.is_empty() { c.sig.push_str(rest); c.sig.push('\n'); }
                        sink = Sink::Sig;
                    }
                    "loop" => { let n = rest.parse().unwrap(); cur.as_mut().unwrap().loops.entry(n).or_default(); sink = Sink::Loop(n) }
                    "closure" => { let n = rest.parse().unwrap(); cur.as_mut().unwrap().closures.entry(n).or_default(); sink = Sink::Closure(n) }
                    "at" => {
                        let mut p = rest.split_whitespace();
                        let place = p.next().unwrap().to_string();
                        let n = p.next().map(|s| s.parse().unwrap()).unwrap_or(0);
                        sink = Sink::At(place, n);
                    }
                    "end" => { self.flush(&mut cur, &mut unit); sink = Sink::None; }
                    w => panic!("{file}:{}: unknown directive @{w}", ln + 1),
                }
                continue;
            }
            let target = match &sink {
                Sink::None => {
                    if line.trim().is_empty() || line.trim().starts_with("//") { continue; }
                    panic!("{file}:{}: stray text: {line}", ln + 1)
                }
                Sink::Spec(n) => self.specs.get_mut(n).unwrap(),
                Sink::Impl(n) => self.impls.get_mut(n).unwrap(),
                Sink::Opaque(n) => self.opaque.get_mut(n).unwrap(),
                Sink::Sig => &mut cur.as_mut().unwrap().sig,
                Sink::Loop(n) => cur.as_mut().unwrap().loops.get_mut(n).unwrap(),
                Sink::Closure(n) => cur.as_mut().unwrap().closures.get_mut(n).unwrap(),
                Sink::At(p, n) => cur.as_mut().unwrap().at.entry((p.clone(), *n)).or_default(),
            };
            target.push_str(line);
            target.push('\n');
        }
        self.flush(&mut cur, &mut unit);
    }

    fn flush(&mut self, cur: &mut Option<FnContract>, unit: &mut Option<Unit>) {
        if let Some(c) = cur.take() {
            if self.fns.contains_key(&c.path) { panic!("{}:{}: duplicate contract {}", c.file, c.line, c.path); }
            self.fns.insert(c.path.clone(), c);
        }
        if let Some(u) = unit.take() { self.units.insert(u.name.clone(), u); }
    }
}
