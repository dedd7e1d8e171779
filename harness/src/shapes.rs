//! C12 (SVG text), C13 (fitting)
use crate::turtle::{path, points, rcoord, rpath, P};
use crate::*;
use rusty_systems::geometry::{Path, Point, Vector};
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::svg::*;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;

/// An interpretation that draws given paths.
#[derive(Debug, Clone, Default)]
struct Fixed { paths: Vec<Vec<P>>, n: usize, fail: bool }
impl Interpretation for Fixed {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> { let y = System::new(); y.add_symbol("from-fixed")?; Ok(y) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> {
        if self.fail { return Err(Error::general("no drawing")); }
        Ok(self.paths.iter().map(|p| path(p)).collect())
    }
    fn run_settings(&self) -> RunSettings { RunSettings::for_max_iterations(self.n) }
}

#[derive(Debug, Clone, PartialEq)]
pub struct El { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<El> }
/// a small XML reader: elements, attributes in order, nothing else between them
pub fn xml(t: &str) -> Result<Vec<El>, String> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut stack: Vec<(El, bool)> = vec![(El { name: s("root"), attrs: vec![], kids: vec![] }, true)];
    while i < c.len() {
        if c[i].is_whitespace() { i += 1; continue; }
        if c[i] != '<' { return Err(format!("stray text at {i}: {:?}", c[i..].iter().take(30).collect::<String>())); }
        i += 1;
        if i < c.len() && c[i] == '/' {
            let j = (i..c.len()).find(|j| c[*j] == '>').ok_or("unterminated tag")?;
            let name: String = c[i + 1..j].iter().collect::<String>().trim().to_string();
            i = j + 1;
            if stack.len() < 2 { return Err(format!("closing {name} that is not open")); }
            let (e, _) = stack.pop().unwrap();
            if e.name != name { return Err(format!("{} closed by {name}", e.name)); }
            stack.last_mut().unwrap().0.kids.push(e);
            continue;
        }
        let mut name = String::new();
        while i < c.len() && !c[i].is_whitespace() && c[i] != '>' && c[i] != '/' { name.push(c[i]); i += 1; }
        let mut e = El { name, attrs: vec![], kids: vec![] };
        loop {
            while i < c.len() && c[i].is_whitespace() { i += 1; }
            if i >= c.len() { return Err(s("unterminated tag")); }
            if c[i] == '>' { i += 1; stack.push((e, true)); break; }
            if c[i] == '/' { if c.get(i + 1) != Some(&'>') { return Err(s("stray /")); } i += 2; stack.last_mut().unwrap().0.kids.push(e); break; }
            let mut k = String::new();
            while i < c.len() && c[i] != '=' { k.push(c[i]); i += 1; }
            if c.get(i + 1) != Some(&'"') { return Err(format!("attribute {k} without value")); }
            i += 2;
            let mut v = String::new();
            while i < c.len() && c[i] != '"' { v.push(c[i]); i += 1; }
            if i >= c.len() { return Err(s("unterminated attribute")); }
            i += 1;
            if e.attrs.iter().any(|a| a.0 == k) { return Err(format!("attribute {k} twice")); }
            e.attrs.push((k, v));
        }
    }
    if stack.len() != 1 { return Err(format!("{} is not closed", stack.last().unwrap().0.name)); }
    Ok(stack.pop().unwrap().0.kids)
}
impl El {
    fn get(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    fn keys(&self) -> Vec<&str> { let mut k: Vec<&str> = self.attrs.iter().map(|a| a.0.as_str()).collect(); k.sort(); k }
}
fn num(t: &str) -> Result<f64, String> { t.parse::<f64>().map_err(|_| format!("{t:?} is not a number")) }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

/// the path element of these points
fn judge_path(e: &El, pts: &[P]) -> Res {
    ensure!(e.name == "path" && e.kids.is_empty(), "expected a path element, found {}", e.name);
    let want: Vec<&str> = if pts.is_empty() { vec![] } else { vec!["d"] };
    ensure!(e.keys() == want, "the path has the attributes {:?}, expected {want:?}", e.keys());
    if pts.is_empty() { return Ok(()); }
    let d: Vec<&str> = e.get("d").unwrap().split(' ').filter(|w| !w.is_empty()).collect();
    ensure!(d.len() == 3 * pts.len(), "the path data {d:?} has {} words for {} points", d.len(), pts.len());
    for (i, p) in pts.iter().enumerate() {
        ensure!(d[3 * i] == if i == 0 { "M" } else { "L" }, "the command of point {i} is {}", d[3 * i]);
        ensure!(same(num(d[3 * i + 1])?, p.0) && same(num(d[3 * i + 2])?, p.1), "point {i} is written as {} {}, expected {:?}", d[3 * i + 1], d[3 * i + 2], p);
    }
    Ok(())
}
fn judge_decorations(e: &El, fill: &Option<String>, stroke: &Option<String>, width: Option<f32>) -> Res {
    ensure!(e.get("fill").map(s) == *fill, "fill is {:?}, expected {fill:?}", e.get("fill"));
    ensure!(e.get("stroke").map(s) == *stroke, "stroke is {:?}, expected {stroke:?}", e.get("stroke"));
    let w = e.get("stroke-width").map(|w| w.parse::<f32>().map_err(|_| format!("stroke-width {w:?} is not a number"))).transpose()?;
    ensure!(w.map(f32::to_bits) == width.map(f32::to_bits) || (w.map(f32::is_nan) == Some(true) && width.map(f32::is_nan) == Some(true)), "stroke-width is {w:?}, expected {width:?}");
    Ok(())
}
/// svg > g > paths
fn judge_drawing(svg: &Svg, w: usize, h: usize, paths: &[Vec<P>]) -> Result<Vec<(String, f64, f64)>, String> {
    let text = svg.to_svg();
    let all = xml(&text)?;
    ensure!(all.len() == 1 && all[0].name == "svg", "the drawing is not one svg element");
    let v = &all[0];
    ensure!(v.get("width") == Some(&s(w)) && v.get("height") == Some(&s(h)), "the canvas is {:?} by {:?}, expected {w} by {h}", v.get("width"), v.get("height"));
    ensure!(v.keys() == ["height", "version", "width", "xmlns"], "the svg has the attributes {:?}", v.keys());
    ensure!(v.kids.len() == 1 && v.kids[0].name == "g", "the svg does not hold one group");
    let g = &v.kids[0];
    ensure!(g.keys() == ["fill", "stroke", "stroke-width", "transform"], "the group has the attributes {:?}", g.keys());
    judge_decorations(g, &Some(s("none")), &Some(s("black")), Some(0.2))?;
    ensure!(g.kids.len() == paths.len(), "the group holds {} elements, expected {} paths", g.kids.len(), paths.len());
    for (i, (e, p)) in g.kids.iter().zip(paths).enumerate() { judge_path(e, p).map_err(|e| format!("path {i}: {e}"))?; }
    let mut out = vec![];
    let mut t = g.get("transform").unwrap().trim();
    while !t.is_empty() {
        let (name, rest) = t.split_once('(').ok_or("malformed transform")?;
        let (args, rest) = rest.split_once(')').ok_or("malformed transform")?;
        let a: Vec<&str> = args.split(|c: char| c == ' ' || c == ',').filter(|w| !w.is_empty()).collect();
        ensure!(a.len() == 2, "transform {name} has {} arguments", a.len());
        out.push((s(name.trim()), num(a[0])?, num(a[1])?));
        t = rest.trim();
    }
    Ok(out)
}

pub fn check(prop: &str, f: &[String]) -> Res {
    let opt = |t: &String| if t == "~" { None } else { Some(t.clone()) };
    match f[0].as_str() {
        "path" => {
            let p = points(&f[1]);
            let all = xml(&SvgPath::from(path(&p)).to_svg())?;
            ensure!(all.len() == 1, "{} elements for one path", all.len());
            judge_path(&all[0], &p)?;
            let sp = SvgPath::from(path(&p));
            ensure!(sp.fill().is_none() && sp.stroke().is_none() && sp.len() == p.len(), "a path made from points has decorations or other points");
            Ok(())
        }
        "decorations" => {
            let d = SvgDecorations { fill: opt(&f[1]), stroke: opt(&f[2]), stroke_width: opt(&f[3]).map(|w| w.parse().unwrap()) };
            let all = xml(&format!("<x {}/>", d.to_attr_string()))?;
            ensure!(all.len() == 1 && all[0].attrs.len() == [d.fill.is_some(), d.stroke.is_some(), d.stroke_width.is_some()].iter().filter(|x| **x).count(), "decorations write the attributes {:?}", all[0].keys());
            judge_decorations(&all[0], &d.fill, &d.stroke, d.stroke_width)
        }
        "circle" => {
            let v: Vec<f64> = f[1].split(' ').map(|x| x.parse().unwrap()).collect();
            let r = if f[2] == "v" { SvgCircle::build(Vector::new(v[0], v[1]), v[2]) } else { SvgCircle::build(Point::new(v[0], v[1]), v[2]) };
            if v[2].is_nan() { return Ok(()); }
            let mut c = match r { Err(_) => { ensure!(v[2] < 0.0, "a circle of radius {} is refused", v[2]); return Ok(()); } Ok(c) => c };
            ensure!(v[2] >= 0.0, "a circle of radius {} is accepted", v[2]);
            ensure!(same(c.centre.x(), v[0]) && same(c.centre.y(), v[1]) && same(c.radius, v[2]), "a circle at {:?} is {c:?}", v);
            c.decorations = SvgDecorations { fill: opt(&f[3]), stroke: opt(&f[4]), stroke_width: opt(&f[5]).map(|w| w.parse().unwrap()) };
            let all = xml(&c.to_svg())?;
            ensure!(all.len() == 1 && all[0].name == "circle" && all[0].kids.is_empty(), "a circle writes {}", c.to_svg());
            let e = &all[0];
            for (k, x) in [("cx", v[0]), ("cy", v[1]), ("r", v[2])] { ensure!(same(num(e.get(k).ok_or(format!("no {k}"))?)?, x), "{k} is {:?}, expected {x}", e.get(k)); }
            ensure!(e.attrs.len() == 3 + [3, 4, 5].iter().filter(|i| f[**i] != "~").count(), "a circle writes the attributes {:?}", e.keys());
            judge_decorations(e, &c.decorations.fill, &c.decorations.stroke, c.decorations.stroke_width)
        }
        "defaults" => {
            let e = xml(&Svg::default().to_svg())?;
            ensure!(e.len() == 1 && e[0].name == "svg" && e[0].kids.is_empty() && e[0].get("width") == Some("500") && e[0].get("height") == Some("500"), "the default drawing writes {}", Svg::default().to_svg());
            let e = xml(&SvgGroup::default().to_svg())?;
            ensure!(e.len() == 1 && e[0].name == "g" && e[0].kids.is_empty() && e[0].attrs.is_empty(), "the default group writes {}", SvgGroup::default().to_svg());
            ensure!(SvgScale::default().to_transform().replace(' ', "") == "scale(00)" && SvgTranslate::default().to_transform().replace(' ', "") == "translate(00)", "default transforms write {} {}", SvgScale::default().to_transform(), SvgTranslate::default().to_transform());
            Ok(())
        }
        "draw" | "fail" => {
            let (w, h, n): (usize, usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
            let paths: Vec<Vec<P>> = f[4..].iter().map(|t| points(t)).collect();
            let i = SvgPathInterpretation::new_with(w, h, Fixed { paths: paths.clone(), n, fail: f[0] == "fail" });
            ensure!(i.width() == w && i.height() == h, "the canvas {w} by {h} is kept as {} by {}", i.width(), i.height());
            ensure!(i.run_settings().max_iterations == n, "the run settings are {} iterations, those of the underlying interpretation {n}", i.run_settings().max_iterations);
            let y = <SvgPathInterpretation<Fixed> as Interpretation>::system().map_err(s)?;
            ensure!(y.symbol_len() == 1 && y.get_symbol("from-fixed").is_some(), "the system is not that of the underlying interpretation");
            let r = i.interpret(&y, &ProductionString::new());
            if f[0] == "fail" { ensure!(r.is_err(), "a failing interpretation gives a drawing"); return Ok(()); }
            let svg = r.map_err(|e| format!("interpret: {e}"))?;
            let t = judge_drawing(&svg, w, h, &paths)?;
            // the file holds the same text
            if f[4..].len() == 1 && n == 1 {
                let file = std::env::temp_dir().join(format!("vh-{}.svg", std::process::id()));
                svg.save_file(&file).map_err(s)?;
                let back = std::fs::read_to_string(&file).map_err(s)?;
                let _ = std::fs::remove_file(&file);
                ensure!(back == svg.to_svg(), "the saved file differs from the text of the drawing");
            }
            if prop == "C12" { return Ok(()); }
            ensure!(t.len() == 3 && t[0].0 == "translate" && t[1].0 == "scale" && t[2].0 == "translate", "the transforms are {t:?}, expected translate, scale, translate");
            ensure!(t.iter().all(|x| x.1.is_finite() && x.2.is_finite()), "the transforms {t:?} are not finite");
            let all: Vec<P> = paths.concat();
            let (w, h) = (w as f64, h as f64);
            let near = |a: f64, b: f64, sc: f64| (a - b).abs() <= 1e-9 * sc.abs();
            ensure!(near(t[0].1, w / 2.0, w) && near(t[0].2, h / 2.0, h), "the drawing is moved to {:?}, the centre of the canvas is ({}, {})", t[0], w / 2.0, h / 2.0);
            let range = |k: usize| { let v: Vec<f64> = all.iter().map(|p| if k == 0 { p.0 } else { p.1 }).collect(); (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)) };
            let (bx, by, cx, cy) = if all.is_empty() { (0.0, 0.0, 0.0, 0.0) } else { let (x, y) = (range(0), range(1)); (x.1 - x.0, y.1 - y.0, (x.0 + x.1) / 2.0, (y.0 + y.1) / 2.0) };
            let big = all.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
            ensure!(near(t[2].1, -cx, big) && near(t[2].2, -cy, big), "the centre of the drawing is moved by {:?}, expected ({}, {})", t[2], -cx, -cy);
            let (fx, fy) = (w / bx, h / by);
            let want = if fx.is_finite() && fy.is_finite() { fx.min(fy) } else if fx.is_finite() { fx } else if fy.is_finite() { fy } else { 1.0 };
            ensure!((t[1].1 - want).abs() <= 1e-9 * want && (t[1].2 + want).abs() <= 1e-9 * want, "the drawing ({bx} by {by}) is scaled by {:?} on the canvas {w} by {h}, expected ({want}, {})", t[1], -want);
            Ok(())
        }
        "turtle" => {
            let (w, h, n): (usize, usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
            let turtle = AbopTurtleInterpretation::new(n, 60.0);
            let y = AbopTurtleInterpretation::system().map_err(s)?;
            let string = pstr(&f[4]);
            let paths = crate::turtle::paths_of(&turtle.interpret(&y, &string).map_err(s)?);
            let i = SvgPathInterpretation::new_with(w, h, turtle);
            ensure!(i.run_settings().max_iterations == n, "the run settings are {} iterations, expected {n}", i.run_settings().max_iterations);
            let svg = i.interpret(&y, &string).map_err(s)?;
            judge_drawing(&svg, w, h, &paths)?;
            let d = SvgPathInterpretation::<AbopTurtleInterpretation>::new(w, h);
            ensure!(d.width() == w && d.height() == h && d.run_settings().max_iterations == AbopTurtleInterpretation::default().n(), "new() does not use the default interpretation");
            let d = SvgPathInterpretation::<AbopTurtleInterpretation>::default();
            ensure!(d.width() == 500 && d.height() == 500, "the default canvas is {} by {}", d.width(), d.height());
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub fn gen(prop: &str, g: &mut Gen) {
    let sizes = ["500", "1", "100", "333", "1000", "7", "4096"];
    if prop == "C12" {
        g.each(&[s("defaults")]);
        for t in ["", "0.0 0.0", "1.0 2.0", "-0.0 1e300", "0.1 0.2 0.3 0.4", "1.0 2.0 1.0 2.0 1.0 2.0", "1e-7 1e21 3.0 -4.5", "5e-324 1.7976931348623157e308"] { g.each(&[s("path"), s(t)]); }
        for _ in 0..g.count(12000) { let t = rpath(&mut g.rng, 9); g.one(&[s("path"), t]); }
        for _ in 0..g.count(60) { let r = &mut g.rng; let n = [64, 128, 256, 257, 1000, 5000][r.below(6)]; let t = rpath(r, n); g.one(&[s("path"), t]); }
        let fs = ["~", "red", "#fff", "none", "", "url(#a)"];
        let ws = ["~", "0.2", "1", "0", "1e-10", "16777217", "0.1"];
        for a in fs { for b in fs { for c in ws { g.each(&[s("decorations"), s(a), s(b), s(c)]); g.each(&[s("circle"), s("1.5 -2.5 3.0"), s("p"), s(a), s(b), s(c)]); } } }
        for r in ["0.0", "-0.0", "1.0", "-1.0", "5e-324", "-5e-324", "1e308", "inf", "-inf", "-1e308", "0.1"] { for k in ["p", "v"] { g.each(&[s("circle"), format!("0.5 0.25 {r}"), s(k), s("~"), s("red"), s("~")]); } }
        for _ in 0..g.count(4000) { let r = &mut g.rng; let v = format!("{:?} {:?} {:?}", rcoord(r), rcoord(r), rcoord(r)); let c = [s("circle"), v, s(["p", "v"][r.below(2)]), s(fs[r.below(6)]), s(fs[r.below(6)]), s(ws[r.below(7)])]; g.one(&c); }
    } else {
        g.each(&[s("fail"), s(10), s(10), s(1), s("0.0 0.0 1.0 1.0")]);
        for w in sizes { for h in sizes { for p in ["", "0.0 0.0", "3.0 4.0", "0.0 0.0 0.0 10.0", "0.0 0.0 10.0 0.0", "0.0 0.0 10.0 20.0", "-5.0 -5.0 -1.0 -4.0", "100.0 0.0 101.0 300.0", "0.0 0.0 1e-9 1e9"] { g.each(&[s("draw"), s(w), s(h), s(1), s(p)]); } } }
    }
    // many paths, many points: the sizes at which a counter of 8 or 16 bits is full
    let mut many = vec![254usize, 255, 256, 257, 300];
    if g.thorough { many.extend([65535, 65536, 65537, 70000]); }
    for n in many {
        let wide = |k: usize| format!("{:?} {:?}", (k % 97) as f64 - 20.0, (k % 53) as f64 * 0.5);
        let mut f = vec![s("draw"), s(300), s(200), s(1)];
        f.extend((0..n).map(wide));
        g.each(&f);
        g.each(&[s("draw"), s(300), s(200), s(1), (0..n).map(wide).collect::<Vec<_>>().join(" ")]);
        if prop == "C12" { g.each(&[s("path"), (0..n).map(wide).collect::<Vec<_>>().join(" ")]); }
    }
    g.each(&[s("draw"), s(100), s(50), s(3)]);
    g.each(&[s("draw"), s(100), s(50), s(0), s(""), s("")]);
    let q = if prop == "C13" { 25000 } else { 5000 };
    for _ in 0..g.count(q) {
        let r = &mut g.rng;
        let n = r.below(6);
        let w = if r.chance(1, 2) { s(sizes[r.below(7)]) } else { s(r.range(1, 2000)) };
        let h = if r.chance(1, 2) { s(sizes[r.below(7)]) } else { s(r.range(1, 2000)) };
        let mut f = vec![s("draw"), w, h, s(r.below(12))];
        let shift = if r.chance(1, 2) { Some(((r.unit() - 0.5) * 1e4, (r.unit() - 0.5) * 1e4)) } else { None };
        for _ in 0..n {
            let t = rpath(r, 5);
            let mut p = points(&t);
            // keep to magnitudes whose bounding boxes do not overflow or vanish
            for q in p.iter_mut() { for c in [&mut q.0, &mut q.1] { if c.abs() > 1e9 || (c.abs() < 1e-6 && *c != 0.0) { *c = (r.unit() - 0.5) * 50.0; } } if let Some(d) = shift { q.0 += d.0; q.1 += d.1; } }
            f.push(p.iter().map(|q| format!("{:?} {:?}", q.0, q.1)).collect::<Vec<_>>().join(" "));
        }
        g.one(&f);
    }
    for _ in 0..g.count(600) {
        let r = &mut g.rng;
        let mut w = vec![];
        let mut depth = 0;
        for _ in 0..r.below(40) { let t = ["Forward", "Forward", "Move", "+", "-", "[", "]", "X"][r.below(8)]; if t == "[" { depth += 1 } if t == "]" { if depth == 0 { continue } depth -= 1 } w.push(t); }
        let (a, b, n) = (r.range(1, 900), r.range(1, 900), r.below(12));
        g.one(&[s("turtle"), s(a), s(b), s(n), w.join(" ")]);
    }
}
