//! C10 (turtle), C11 (bounds), C16 (geometry)
use crate::*;
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use std::cell::RefCell;
use std::collections::HashSet;

pub type P = (f64, f64);
pub fn near(a: f64, b: f64, scale: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * (scale.abs() + 1.0) || (a.is_nan() && b.is_nan()) }

/// C10, from its statement
pub fn turtle(word: &[&str], delta: f32) -> Option<Vec<Vec<P>>> {
    let (mut x, mut y, mut dx, mut dy) = (0.0f64, 0.0f64, 0.0f64, 5.0f64);
    let rad = (delta as f64) * std::f64::consts::PI / 180.0;
    let mut saved: Vec<(f64, f64, f64, f64)> = vec![];
    let mut paths: Vec<Vec<P>> = vec![];
    let mut path: Vec<P> = vec![(0.0, 0.0)];
    for w in word {
        match *w {
            "Forward" => { x += dx; y += dy; path.push((x, y)); }
            "Move" | "]" => {
                if *w == "Move" { x += dx; y += dy; } else { let (a, b, c, d) = saved.pop()?; x = a; y = b; dx = c; dy = d; }
                if path.len() > 1 { paths.push(std::mem::take(&mut path)); }
                path = vec![(x, y)];
            }
            "[" => saved.push((x, y, dx, dy)),
            "+" | "-" => {
                let (sn, c) = (if *w == "+" { rad } else { -rad }).sin_cos();
                (dx, dy) = (c * dx - sn * dy, sn * dx + c * dy);
            }
            _ => {}
        }
    }
    paths.push(path);
    Some(paths)
}

fn show(p: &[Vec<P>]) -> String { format!("{p:?}").chars().take(600).collect() }
pub fn paths_of(v: &[Path]) -> Vec<Vec<P>> { v.iter().map(|p| p.iter().map(|q| (q.x(), q.y())).collect()).collect() }

fn c10(f: &[String]) -> Res {
    let delta: f32 = f[1].parse().unwrap();
    let n: usize = f[2].parse().unwrap();
    let i = AbopTurtleInterpretation::new(n, delta);
    ensure!(i.n() == n && i.delta().to_bits() == delta.to_bits(), "settings are not kept");
    ensure!(i.run_settings().max_iterations == n, "run settings of {} iterations for n = {n}", i.run_settings().max_iterations);
    let words: Vec<&str> = words(&f[3]);
    let string = pstr(&f[3]);
    let six = ["Forward", "Move", "+", "-", "[", "]"];
    let result = match f[0].as_str() {
        "system" => { let y = AbopTurtleInterpretation::system().map_err(|e| format!("system(): {e}"))?; i.interpret(&y, &string) }
        "cell" => { let c: RefCell<HashSet<u32>> = RefCell::new(HashSet::new()); for x in six.iter().rev() { c.add_symbol(*x).unwrap(); } i.interpret(&c, &string) }
        "own" => { let y = System::new(); for x in six { y.add_symbol(x).unwrap(); } i.interpret(&y, &string) }
        m => {
            // a store that lacks one symbol
            let k: usize = m[4..].parse().unwrap();
            let y = System::new();
            for (j, x) in six.iter().enumerate() { if j != k { y.add_symbol(*x).unwrap(); } }
            let r = i.interpret(&y, &string);
            ensure!(r.is_err(), "interpreting [{}] with a store without {} is not an error", f[3], six[k]);
            return Ok(());
        }
    };
    match (turtle(&words, delta), result) {
        (None, Ok(p)) => Err(format!("[{}] closes a branch it did not open, and gives {}", f[3], show(&paths_of(&p)))),
        (Some(w), Err(e)) => Err(format!("[{}] is refused ({e}), expected {}", f[3], show(&w))),
        (None, Err(_)) => Ok(()),
        (Some(w), Ok(p)) => {
            let g = paths_of(&p);
            let tol = 5.0 * words.len() as f64;
            let ok = g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| near(p.0, q.0, tol) && near(p.1, q.1, tol)));
            ensure!(ok, "[{}] with angle {delta} draws {}, expected {}", f[3], show(&g), show(&w));
            Ok(())
        }
    }
}

pub fn floats(t: &str) -> Vec<f64> { t.split(' ').filter(|w| !w.is_empty()).map(|w| w.parse().unwrap()).collect() }
pub fn points(t: &str) -> Vec<P> { floats(t).chunks(2).map(|c| (c[0], c[1])).collect() }
pub fn path(p: &[P]) -> Path { p.iter().map(|(x, y)| Point::new(*x, *y)).collect() }

fn judge_bounds(all: &[P], b: Option<BoundingBox>, what: &str) -> Res {
    if all.is_empty() { ensure!(b.is_none(), "{what} has no points, and bounds {b:?}"); return Ok(()); }
    let b = b.ok_or(format!("{what} has no bounds"))?;
    let lo = |f: fn(&P) -> f64| all.iter().map(f).fold(all.iter().map(f).next().unwrap(), |a, c| if c < a { c } else { a });
    let hi = |f: fn(&P) -> f64| all.iter().map(f).fold(all.iter().map(f).next().unwrap(), |a, c| if c > a { c } else { a });
    let (x0, x1, y0, y1) = (lo(|p| p.0), hi(|p| p.0), lo(|p| p.1), hi(|p| p.1));
    ensure!(b.min_x == x0 && b.max_x == x1 && b.min_y == y0 && b.max_y == y1, "{what} has the bounds {b:?}, expected x {x0}..{x1}, y {y0}..{y1}");
    let (mut sx, mut sy, mut ax, mut ay) = (0.0, 0.0, 0.0f64, 0.0f64);
    for p in all { sx += p.0; sy += p.1; ax += p.0.abs(); ay += p.1.abs(); }
    let n = all.len() as f64;
    let close = |g: f64, w: f64, a: f64| g == w || (g - w).abs() <= 1e-11 * (a / n) || !w.is_finite();
    ensure!(close(b.com.x(), sx / n, ax) && close(b.com.y(), sy / n, ay), "{what} has the centre of mass {}, expected ({},{})", b.com, sx / n, sy / n);
    let c = b.center();
    let scale = x0.abs().max(x1.abs()).max(y0.abs()).max(y1.abs());
    if scale < 1e300 {
        ensure!(near(b.width(), (x1 - x0).abs(), 0.0) || (b.width() - (x1 - x0)).abs() <= 1e-12 * scale, "{what} is {} wide, expected {}", b.width(), x1 - x0);
        ensure!(near(b.height(), (y1 - y0).abs(), 0.0) || (b.height() - (y1 - y0)).abs() <= 1e-12 * scale, "{what} is {} high, expected {}", b.height(), y1 - y0);
        ensure!((c.x() - (x0 + x1) / 2.0).abs() <= 1e-12 * scale && (c.y() - (y0 + y1) / 2.0).abs() <= 1e-12 * scale, "{what} has the centre {c}, expected ({},{})", (x0 + x1) / 2.0, (y0 + y1) / 2.0);
    }
    Ok(())
}

fn c11(f: &[String]) -> Res {
    match f[0].as_str() {
        "path" => { let p = points(&f[1]); judge_bounds(&p, path(&p).bounds(), &format!("path {p:?}")) }
        "paths" => {
            let ps: Vec<Vec<P>> = f[1..].iter().map(|t| points(t)).collect();
            let v: Vec<Path> = ps.iter().map(|p| path(p)).collect();
            let all: Vec<P> = ps.concat();
            judge_bounds(&all, v.bounds(), &format!("list {ps:?}"))
        }
        _ => {
            let v = floats(&f[1]);
            let b = BoundingBox { min_x: v[0], max_x: v[1], min_y: v[2], max_y: v[3], com: Point::zero() };
            let tol = 1e-12 * v.iter().map(|x| x.abs()).fold(0.0, f64::max);
            ensure!((b.width() - (v[1] - v[0]).abs()).abs() <= tol && (b.height() - (v[3] - v[2]).abs()).abs() <= tol, "box {v:?} is {} by {}", b.width(), b.height());
            ensure!((b.center().x() - (v[0] + v[1]) / 2.0).abs() <= tol && (b.center().y() - (v[2] + v[3]) / 2.0).abs() <= tol, "box {v:?} has the centre {}", b.center());
            let z = BoundingBox::zero();
            ensure!(z.width() == 0.0 && z.height() == 0.0 && z.center() == Point::zero() && z.com == Point::zero(), "the zero box is {z:?}");
            Ok(())
        }
    }
}

/// The same IEEE number, the sign of zero included (NaNs are one value).
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() }
fn c16(f: &[String]) -> Res {
    if f[0] == "path" {
        // operations on a path, against a list
        let mut p = if f[1] == "new" { Path::new() } else { path(&points(&f[1])) };
        let mut m: Vec<P> = if f[1] == "new" { vec![] } else { points(&f[1]) };
        for op in &f[2..] {
            let v = floats(&op[1..]);
            match &op[..1] {
                "p" => { p.push(Point::new(v[0], v[1])); m.push((v[0], v[1])); }
                "v" => { p.push(Vector::new(v[0], v[1])); m.push((v[0], v[1])); }
                "+" => { p = p + Vector::new(v[0], v[1]); for q in m.iter_mut() { q.0 += v[0]; q.1 += v[1]; } }
                "c" => { p = p.clone().into_iter().collect(); }
                _ => unreachable!(),
            }
            let list = |g: Vec<P>| g.len() == m.len() && g.iter().zip(&m).all(|(a, b)| same(a.0, b.0) && same(a.1, b.1));
            ensure!(p.len() == m.len() && p.is_empty() == m.is_empty(), "after {op}: {} points, expected {}", p.len(), m.len());
            ensure!(list(p.iter().map(|q| (q.x(), q.y())).collect()), "after {op}: the points are {:?}, expected {m:?}", p);
            ensure!(list((0..m.len()).map(|i| (p[i].x(), p[i].y())).collect()), "after {op}: indexing {p:?} differs from {m:?}");
            ensure!(list((0..m.len()).filter_map(|i| p.get(i).map(|q| (q.x(), q.y()))).collect()), "after {op}: looking up {p:?} differs from {m:?}");
            ensure!(list(p.clone().into_iter().map(|q| (q.x(), q.y())).collect()), "after {op}: consuming {p:?} differs from {m:?}");
            ensure!(p.get(m.len()).is_none() && p.get(m.len() + 1).is_none() && p.get(usize::MAX).is_none() && (0..m.len() + 1).all(|i| [8u32, 16, 31, 32, 48, 63].into_iter().all(|b| { let j = (1usize << b) + i; j < m.len() || p.get(j).is_none() })), "after {op}: an out of range lookup gives a point");
            ensure!(p.get_start().is_some() == !m.is_empty() && p.get_start().iter().all(|q| same(q.x(), m[0].0) && same(q.y(), m[0].1)), "after {op}: the start is {:?}", p.get_start());
        }
        return Ok(());
    }
    let v = floats(&f[1]);
    let (a, b, c, d, e) = (v[0], v[1], v[2], v[3], v[4]);
    let (p, q, u, w) = (Point::new(a, b), Point::new(c, d), Vector::new(a, b), Vector::new(c, d));
    let pp = |what: &str, g: Point, x: f64, y: f64| -> Res { ensure!(same(g.x(), x) && same(g.y(), y), "{what} of ({a},{b}), ({c},{d}), {e} is {g:?}, expected ({x},{y})"); Ok(()) };
    let vv = |what: &str, g: Vector, x: f64, y: f64| -> Res { ensure!(same(g.x(), x) && same(g.y(), y), "{what} of ({a},{b}), ({c},{d}), {e} is {g:?}, expected ({x},{y})"); Ok(()) };
    pp("point", p, a, b)?; vv("vector", u, a, b)?;
    pp("point + point", p + q, a + c, b + d)?;
    pp("point + vector", p + w, a + c, b + d)?;
    pp("point - point", p - q, a - c, b - d)?;
    pp("point - vector", p - w, a - c, b - d)?;
    pp("-point", -p, -a, -b)?;
    pp("point / number", p / e, a / e, b / e)?;
    vv("vector + vector", u + w, a + c, b + d)?;
    vv("vector - vector", u - w, a - c, b - d)?;
    vv("-vector", -u, -a, -b)?;
    vv("vector of a point", Vector::from(p), a, b)?;
    pp("point of a vector", Point::from(u), a, b)?;
    pp("zero", Point::zero(), 0.0, 0.0)?; pp("default", Point::default(), 0.0, 0.0)?;
    vv("zero", Vector::zero(), 0.0, 0.0)?; vv("default", Vector::default(), 0.0, 0.0)?; vv("up", Vector::up(), 0.0, 1.0)?; vv("down", Vector::down(), 0.0, -1.0)?;
    ensure!((p == q) == (a == c && b == d) && (u == w) == (a == c && b == d), "equality of ({a},{b}) and ({c},{d})");
    ensure!(format!("{p}") == format!("({a},{b})") && format!("{u}") == format!("({a},{b})"), "({a},{b}) prints as {p} and {u}");
    // rotation and norm, up to rounding
    let m = a.abs().max(b.abs());
    if !a.is_nan() && !b.is_nan() && (m < 1e150 && m > 1e-150 || m == 0.0) {
        let h = a.hypot(b);
        ensure!((u.norm() - h).abs() <= 1e-14 * h, "the norm of ({a},{b}) is {}, expected {h}", u.norm());
        if e.abs() <= 1e6 {
            let (sn, cs) = (e * (std::f64::consts::PI / 180.0)).sin_cos();
            let r = u.rotate(e);
            let tol = m * (1e-14 + 4e-16 * e.abs());
            ensure!((r.x() - (a * cs - b * sn)).abs() <= tol && (r.y() - (a * sn + b * cs)).abs() <= tol, "({a},{b}) turned by {e} degrees is {r:?}, expected ({},{})", a * cs - b * sn, a * sn + b * cs);
        }
    }
    Ok(())
}

pub fn check(prop: &str, f: &[String]) -> Res { match prop { "C10" => c10(f), "C11" => c11(f), "C16" => c16(f), _ => unreachable!() } }

pub fn rcoord(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => (r.unit() - 0.5) * 1e-3, 4 => (r.unit() - 0.5) * 1e9, 5 => -(r.unit() * 100.0), 6 => r.unit() * 100.0,
        7 => (r.below(7) as f64) - 3.0, 8 => (r.unit() - 0.5) * 1e120, 9 => (r.unit() - 0.5) * 1e-120, _ => (r.unit() - 0.5) * 20.0,
    }
}
fn any_float(r: &mut Rng) -> f64 {
    match r.below(6) { 0 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1.0, -1.0][r.below(12)], 1 => f64::from_bits(r.next()), _ => rcoord(r) }
}
pub fn rpath(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let shift = if r.chance(1, 3) { [1000.0, -1000.0, 1e6, -1e6][r.below(4)] } else { 0.0 };
    let same = if r.chance(1, 8) { Some(rcoord(r)) } else { None };
    (0..n).map(|_| format!("{:?} {:?}", same.unwrap_or_else(|| rcoord(r) + shift), rcoord(r) + shift)).collect::<Vec<_>>().join(" ")
}

pub fn gen(prop: &str, g: &mut Gen) {
    match prop {
        "C10" => {
            let toks = ["Forward", "Move", "+", "-", "[", "]", "X"];
            let stores = ["system", "cell", "own"];
            for (k, t) in crate::rewriting::all_strings(&toks, 5).into_iter().enumerate() { g.each(&[s(stores[k % 3]), s(["90", "22.5", "60", "-30", "0"][k % 5]), s(k % 7), t]); }
            for k in 0..6 { for t in ["", "Forward", "X", "[ ]", "Forward Move + - [ ]"] { g.each(&[format!("lack{k}"), s("90"), s(1), s(t)]); } }
            for _ in 0..g.count(12000) {
                let r = &mut g.rng;
                let len = match r.below(20) { 0 => r.range(100, 600), 1..=4 => r.range(30, 80), _ => r.range(3, 25) };
                let mut depth = 0usize;
                let wild = r.chance(1, 8);
                let mut w: Vec<&str> = vec![];
                for _ in 0..len {
                    let t = match r.below(14) { 0..=3 => "Forward", 4 => "Move", 5 | 6 => "+", 7 | 8 => "-", 9 | 10 => "[", 11 | 12 => "]", _ => ["X", "Y", "A", "forward", "code"][r.below(5)] };
                    if t == "[" { depth += 1; }
                    if t == "]" { if depth == 0 && !wild { continue; } depth = depth.saturating_sub(1); }
                    w.push(t);
                }
                let d = match r.below(6) { 0 => s(0), 1 => s(90), 2 => s(22.5), 3 => format!("{}", (r.unit() * 360.0) as f32), 4 => format!("{}", -(r.unit() * 720.0) as f32), _ => format!("{}", (r.unit() * 1e4) as f32) };
                let n = r.below(20);
                let st = s(stores[r.below(3)]);
                g.one(&[st, d, s(n), w.join(" ")]);
            }
            for n in [10usize, 50, 63, 64, 65, 200, 255, 256, 300, 1500, 5000] { g.each(&[s("system"), s(10), s(1), format!("{}Forward {}Forward", "[ Forward + ".repeat(n), "] Forward ".repeat(n))]); g.each(&[s("system"), s(10), s(1), "Forward ".repeat(n).trim().to_string()]); g.each(&[s("own"), s(7), s(1), "Forward Move + ".repeat(n).trim().to_string()]); }
            for n in [65_537usize] { g.each(&[s("system"), s(10), s(1), "Forward ".repeat(n).trim().to_string()]); g.each(&[s("own"), s(7), s(1), "Forward Move + ".repeat(n).trim().to_string()]); g.each(&[s("own"), s(7), s(1), format!("{}{}Forward", "[ Forward ".repeat(n), "] ".repeat(n))]); }
        }
        "C11" => {
            for n in [65_535usize, 65_537] { let t = (0..n).map(|i| format!("{}.5 -{}.25", i % 1000, i / 7)).collect::<Vec<_>>().join(" "); g.each(&[s("path"), t.clone()]); g.each(&[s("paths"), t, s("-1.0 900000.0")]); let mut f = vec![s("paths")]; f.extend((0..n).map(|i| format!("{}.0 {}.0", i % 100, i / 9))); g.each(&f); }
            for t in ["", "0.0 0.0", "1.0 2.0", "-1.0 -2.0", "-0.0 5.0", "-3.0 -4.0 -1.0 -2.0", "3.0 4.0 1.0 2.0 2.0 9.0", "1e308 -1e308", "1e308 0.0 1e308 0.0", "5e-324 -5e-324"] { g.each(&[s("path"), s(t)]); g.each(&[s("paths"), s(t)]); g.each(&[s("paths"), s(""), s(t), s("")]); g.each(&[s("paths"), s(t), s("7.0 -7.0")]); }
            g.each(&[s("paths")]); g.each(&[s("paths"), s(""), s("")]);
            let v = ["-1.0", "0.0", "2.0"];
            // every path of up to three points on a small grid, and lists of two paths
            for a in v { for b in v { for c in v { for d in v { for e in v { for h in v {
                g.each(&[s("path"), format!("{a} {b} {c} {d} {e} {h}")]);
                g.each(&[s("paths"), format!("{a} {b}"), format!("{c} {d} {e} {h}")]);
            } } g.each(&[s("path"), format!("{a} {b} {c} {d}")]); } } } }
            for _ in 0..g.count(20000) { let t = rpath(&mut g.rng, 8); g.one(&[s("path"), t]); }
            for _ in 0..g.count(20000) { let r = &mut g.rng; let n = r.below(6); let mut f = vec![s("paths")]; for _ in 0..n { f.push(rpath(r, 5)); } g.one(&f); }
            for _ in 0..g.count(60) { let r = &mut g.rng; let n = [255, 256, 257, 1000, 1024, 5000][r.below(6)]; let t = rpath(r, n); let mut f = vec![s(if r.chance(1, 2) { "path" } else { "paths" }), t]; if f[0] == "paths" { f.push(rpath(r, 300)); } g.one(&f); }
            for _ in 0..g.count(2000) { let r = &mut g.rng; let v: Vec<String> = (0..4).map(|_| format!("{:?}", rcoord(r))).collect(); g.one(&[s("box"), v.join(" ")]); }
        }
        "C16" => {
            for _ in 0..g.count(60000) { let r = &mut g.rng; let mut v: Vec<f64> = (0..4).map(|_| any_float(r)).collect(); v.push(match r.below(4) { 0 => (r.below(17) as f64 - 8.0) * 45.0, 1 => (r.unit() - 0.5) * 2000.0, 2 => any_float(r), _ => (r.unit() - 0.5) * 20.0 }); g.one(&[s("ops"), v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" ")]); }
            // points that are equal, or nearly equal
            for _ in 0..g.count(20000) { let r = &mut g.rng; let (a, b) = if r.chance(1, 2) { (any_float(r), any_float(r)) } else { (rcoord(r), rcoord(r)) };
                let mut near = |x: f64| match r.below(6) { 0 => f64::from_bits(x.to_bits().wrapping_add(1)), 1 => -x, 2 => x + x * 1e-12, 3 => x + 1e-9, _ => x };
                let (c, d) = (near(a), near(b)); g.one(&[s("ops"), format!("{a:?} {b:?} {c:?} {d:?} 1.0")]); }
            for x in ["0.0", "-0.0", "inf", "-inf", "NaN", "5e-324", "1e-17", "1.7976931348623157e308"] { for y in ["0.0", "-0.0", "inf", "NaN", "-5e-324", "1.7976931348623157e308"] { g.each(&[s("ops"), format!("{x} {y} {x} {y} 1.0")]); g.each(&[s("ops"), format!("{x} {y} {y} {x} 1.0")]); g.each(&[s("ops"), format!("{x} 1.0 {y} 1.0 1.0")]); } }
            for d in -720..=720 { g.each(&[s("ops"), format!("1.0 0.0 3.0 -4.0 {d}.0")]); g.each(&[s("ops"), format!("0.0 5.0 3.0 -4.0 {}.5", d)]); }
            for _ in 0..g.count(8000) { let r = &mut g.rng; let mut f = vec![s("path"), match r.below(4) { 0 | 1 => s("new"), 2 => rpath(r, 6), _ => (0..2 * r.below(5)).map(|_| format!("{:?}", any_float(r))).collect::<Vec<_>>().join(" ") }, s("c")]; let wild = r.chance(1, 2); for _ in 0..r.range(1, 8) { f.push(format!("{}{:?} {:?}", ["p", "p", "v", "+", "c"][r.below(5)], if wild { any_float(r) } else { rcoord(r) }, if wild { any_float(r) } else { rcoord(r) })); } g.one(&f); }
            for n in [100usize, 256, 257, 1000] { let t = (0..n).map(|i| format!("{i}.0 -{i}.5")).collect::<Vec<_>>().join(" "); g.each(&[s("path"), t, s("c"), s("+1.0 2.0"), s("p5.0 6.0"), s("c")]); }
        }
        _ => unreachable!(),
    }
}
