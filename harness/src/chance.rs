//! C04: choice of a body
use crate::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::*;
use rusty_systems::system;

fn chances(t: &str) -> Vec<Option<f32>> { t.split(',').map(|c| if c == "-" { None } else { Some(c.parse().unwrap()) }).collect() }
fn text(v: &[Option<f32>]) -> String { v.iter().map(|c| c.map(|c| format!("{c}")).unwrap_or("-".into())).collect::<Vec<_>>().join(",") }
fn body(i: usize, c: &Option<f32>) -> ProductionBody {
    let st = ProductionString::from(vec![Symbol::from_code(1_000_000 + i as u32)]);
    match c { None => ProductionBody::new(st), Some(c) => ProductionBody::try_with_chance(*c, st).expect("body") }
}
fn head() -> ProductionHead { ProductionHead::build(None, sym("A"), None).unwrap() }
fn rule(v: &[Option<f32>]) -> Production {
    let mut p = Production::new(head(), body(0, &v[0]));
    for (i, c) in v.iter().enumerate().skip(1) { p.add_body(body(i, c)); }
    p
}
/// the interval of each body, from the statement
fn probabilities(v: &[Option<f32>]) -> Vec<f64> {
    if v.len() == 1 { return vec![1.0]; }
    let total: f64 = v.iter().map(|c| c.unwrap_or(0.0) as f64).sum();
    let unset = v.iter().filter(|c| c.is_none()).count();
    let each = if unset == 0 { 0.0 } else { (1.0 - total).max(0.0) / unset as f64 };
    let mut p: Vec<f64> = v.iter().map(|c| c.map(|c| c as f64).unwrap_or(each)).collect();
    let sum: f64 = p.iter().sum();
    *p.last_mut().unwrap() += (1.0 - sum).max(0.0);
    p
}
fn index(b: &ProductionString, n: usize) -> Result<usize, String> {
    ensure!(b.len() == 1, "the chosen body has {} symbols, each body has one", b.len());
    let c = b.symbols()[0].code();
    ensure!(c >= 1_000_000 && ((c - 1_000_000) as usize) < n, "the chosen body is not one of the rule's bodies (symbol code {c})");
    Ok((c - 1_000_000) as usize)
}
fn judge(v: &[Option<f32>], draws: &[usize]) -> Res {
    let p = probabilities(v);
    let n = draws.len() as f64;
    let mut count = vec![0u64; p.len()];
    for d in draws { count[*d] += 1; }
    let slack = 4e-7 * p.len() as f64;
    let off = |c: f64, q: f64| (c - n * q).abs() > 7.5 * (n * q * (1.0 - q).max(0.0)).sqrt() + n * slack + 5.0;
    for (i, q) in p.iter().enumerate() {
        ensure!(!off(count[i] as f64, *q), "chances {}: body {i} was chosen {} times in {n}, its probability is {q}", text(v), count[i]);
    }
    // successive choices are independent
    for lag in 1..=3 {
        let k = p.len();
        if k > 12 || draws.len() < 1000 { break; }
        let mut joint = vec![0u64; k * k];
        for w in draws.windows(lag + 1) { joint[w[0] * k + w[lag]] += 1; }
        for i in 0..k { for j in 0..k {
            let c = joint[i * k + j] as f64;
            // the variance of a lagged joint count is at most about three times the binomial one
            let q = p[i] * p[j];
            ensure!((c - n * q).abs() <= 7.5 * (3.0 * n * q).sqrt() + 2.0 * n * slack + 10.0, "chances {}: body {j} follows body {i} (distance {lag}) {c} times in {n}, expected {}", text(v), n * q);
        } }
    }
    Ok(())
}

/// one draw sequence of a fresh process
pub fn draws(n: usize) -> String {
    let p = rule(&[None, None]);
    (0..n).map(|_| match index(p.body().unwrap().string(), 2) { Ok(0) => '0', _ => '1' }).collect()
}

pub fn check(f: &[String]) -> Res {
    if f[0] == "fresh" {
        let me = std::env::current_exe().map_err(s)?;
        let run = || std::process::Command::new(&me).args(["draws", "256"]).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string());
        let (a, b) = (run().map_err(s)?, run().map_err(s)?);
        ensure!(a.len() == 256 && b.len() == 256, "cannot draw in a fresh process");
        ensure!(a != b, "two processes make the same 256 choices: {a}");
        return Ok(());
    }
    let v = chances(&f[1]);
    let n: usize = f[2].parse().unwrap();
    let total: f64 = v.iter().map(|c| c.unwrap_or(0.0) as f64).sum();
    let bad = v.len() > 1 && total > 1.0 + 1e-4;
    let good = v.len() == 1 || total <= 1.0;
    let p = rule(&v);
    let fail = |e: Error| -> Res { ensure!(!good, "chances {} add up to {total}, and choosing a body fails: {e}", f[1]); Ok(()) };
    let pass = || -> Res { ensure!(!bad, "chances {} add up to {total}, and choosing a body does not fail", f[1]); Ok(()) };
    match f[0].as_str() {
        "body" => {
            let mut d = Vec::with_capacity(n);
            for _ in 0..n {
                match p.body() { Err(e) => { return fail(e); } Ok(b) => { pass()?; d.push(index(b.string(), v.len())?); } }
            }
            judge(&v, &d)
        }
        "derive" | "system" => {
            let input = ProductionString::from(vec![sym("A"); n]);
            let out = if f[0] == "derive" { system::derive_once(input, &[p]) } else {
                let y = System::new();
                for (i, c) in v.iter().enumerate() { y.add_production(Production::new(head(), body(i, c))).map_err(|e| format!("add_production: {e}"))?; }
                y.derive(input, RunSettings::for_max_iterations(1))
            };
            match out {
                Err(e) => fail(e),
                Ok(o) => {
                    pass()?;
                    ensure!(o.len() == n, "{n} symbols derive to {}", o.len());
                    let d: Result<Vec<usize>, String> = o.symbols().iter().map(|c| index(&ProductionString::from(*c), v.len())).collect();
                    judge(&v, &d?)
                }
            }
        }
        "threads" => {
            let run = |v: Vec<Option<f32>>| std::thread::spawn(move || { let p = rule(&v); (0..256).map(|_| p.body().map_err(s).and_then(|b| index(b.string(), v.len()))).collect::<Result<Vec<_>, _>>() });
            let h: Vec<_> = (0..4).map(|_| run(v.clone())).collect();
            let r: Vec<Vec<usize>> = h.into_iter().map(|h| h.join().map_err(|_| s("thread panicked"))?).collect::<Result<_, _>>()?;
            for i in 0..4 { for j in 0..i { ensure!(r[i] != r[j], "two threads make the same 256 choices"); } }
            // and so do two rules, two systems, and two derivations of one system
            let y = System::new();
            for (i, c) in v.iter().enumerate() { y.add_production(Production::new(head(), body(i, c))).map_err(|e| format!("add_production: {e}"))?; }
            let d: Vec<Vec<u32>> = (0..3).map(|_| y.derive_once(ProductionString::from(vec![sym("A"); 256])).map(|x| codes(&x)).unwrap_or_default()).collect();
            ensure!(d[0] != d[1] && d[1] != d[2] && d[0] != d[2], "two derivations make the same 256 choices");
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub fn gen(g: &mut Gen) {
    let draws = if g.thorough { 1_000_000 } else { 150_000 };
    let fixed = ["-", "0.3", "1", "0.00001", "-,-", "-,-,-", "0.5,0.5", "0.5,-", "-,0.5", "0.25,0.25,0.25,0.25", "0.9,-,-", "-,-,0.9", "-,0.9,-", "0.1,0.2,0.3,0.4", "0.4,0.3,0.2,0.1", "0.3,0.3", "0.3,0.3,0.3", "0.1,0.1",
        "1,-", "-,1", "-,1,-", "0.5,0.5,-", "-,0.5,0.5", "0.5,-,0.5", "0.6,0.4,-,-", "0.01,-", "0.99,-", "0.001,0.999", "0.05,-,0.2,-,0.3", "-,0.25,-,0.25", "0.2,0.2,0.2,0.2,0.2", "0.1,0.1,0.1,0.1,0.1,0.1,0.1,0.1,0.1,0.1",
        "0.6,0.6", "1,1", "0.5,0.5,0.5", "0.9,0.2,-", "-,0.9,0.2", "1,0.01", "0.7,0.31"];
    for (i, c) in fixed.iter().enumerate() {
        g.each(&[s("body"), s(c), s(draws)]);
        g.each(&[s(["derive", "system"][i % 2]), s(c), s(draws / 3)]);
    }
    // dividing one evenly is never an error
    for k in 2..=120usize { let c = vec![Some(1.0f32 / k as f32); k]; let c = if c.iter().map(|c| c.unwrap() as f64).sum::<f64>() <= 1.0 { c } else { vec![Some((1.0f32 / k as f32) * (1.0 - 1e-6)); k] }; g.each(&[s("body"), text(&c), s(2000)]); }
    for _ in 0..g.count(240) {
        let r = &mut g.rng;
        let n = match r.below(5) { 0 => 2, 1 => 3, 2 => r.range(2, 8), 3 => r.range(8, 40), _ => r.range(2, 5) };
        let mut left = 1.0f64;
        let v: Vec<Option<f32>> = (0..n).map(|_| if r.chance(1, 3) { None } else {
            let c = (left * r.unit() * [1.0, 0.5, 0.2][r.below(3)]) as f32; let c = c.max(1e-4); left -= c as f64; if left < 0.0 { None } else { Some(c) } }).collect();
        let k = ["body", "body", "derive", "system"][r.below(4)];
        g.one(&[s(k), text(&v), s(draws / 5)]);
    }
    // sums around one
    for _ in 0..g.count(1500) {
        let r = &mut g.rng;
        let n = r.range(2, 30);
        let w: Vec<f64> = (0..n).map(|_| r.unit() + 0.01).collect();
        let t: f64 = w.iter().sum();
        let k = [1.0, 1.0, 0.999999, 1.001, 1.1, 1.5][r.below(6)];
        let mut v: Vec<Option<f32>> = w.iter().map(|x| Some(((x / t * k) as f32).min(1.0))).collect();
        if r.chance(1, 3) { let i = r.below(n + 1); v.insert(i, None); }
        g.one(&[s("body"), text(&v), s(200)]);
    }
    if g.is_shard(0) { g.one(&[s("threads"), s("-,-"), s(0)]); g.one(&[s("threads"), s("0.5,0.5"), s(0)]); g.one(&[s("fresh")]); }
}
