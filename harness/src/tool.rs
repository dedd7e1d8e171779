//! C20: the command line tool (the binary named by VH_TOOL, run in a scratch directory of the case)
use crate::*;
use rusty_systems::interpretation::abop::parser::parse_file;
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path as FsPath, PathBuf};
use std::process::{Command, Stdio};

/// `%` stands for a byte that is not UTF-8
fn os(n: &str) -> OsString { OsString::from_vec(n.bytes().map(|b| if b == b'%' { 0xff } else { b }).collect()) }

/// the name of the output file, its extension made svg
fn with_svg(n: &str) -> String {
    let (dir, file) = match n.rfind('/') { Some(i) => (&n[..i + 1], &n[i + 1..]), None => ("", n) };
    let dot = file.rfind('.').filter(|i| *i > 0);
    match dot {
        Some(i) if file[i + 1..].eq_ignore_ascii_case("svg") => n.to_string(),
        Some(i) => format!("{dir}{}.svg", &file[..i]),
        None => format!("{dir}{file}.svg"),
    }
}

fn all_files(dir: &FsPath, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(dir).unwrap() { let p = e.unwrap().path(); if let Ok(t) = std::fs::read_link(&p) { out.insert(p, t.into_os_string().into_vec()); } else if p.is_dir() { all_files(&p, out); } else { let t = std::fs::read(&p).unwrap(); out.insert(p, t); } }
}

/// what the library makes of the plant
fn library(file: &FsPath, w: usize, h: usize) -> Result<String, String> {
    let (i, sys, axiom) = parse_file(file).map_err(|e| e.to_string())?;
    let i = SvgPathInterpretation::new_with(w, h, i);
    let d = sys.derive(axiom, i.run_settings()).map_err(|e| e.to_string())?;
    Ok(i.interpret(&sys, &d).map_err(|e| e.to_string())?.to_svg())
}

/// fields: plant (alternatives, separated by a record separator: any one of them may be drawn), input name, output name
/// or "-", width or "-", height or "-", flags
pub fn check(f: &[String]) -> Res {
    let [plant, input, output, width, height, flags] = f else { panic!("six fields") };
    let tool = std::env::var("VH_TOOL").expect("VH_TOOL names the tool");
    let n = std::process::id();
    let root = std::env::current_dir().unwrap().join(format!("tool-{n}"));
    if root.exists() { std::fs::remove_dir_all(&root).unwrap(); }
    std::fs::create_dir_all(root.join("in")).unwrap();
    let dir = root.join("work");
    std::fs::create_dir_all(dir.join("sub.d")).unwrap();
    std::fs::create_dir_all(dir.join("taken.svg")).unwrap();
    let r = run(&tool, &root, &dir, plant, input, output, width, height, flags);
    std::fs::remove_dir_all(&root).unwrap();
    r
}

#[allow(clippy::too_many_arguments)]
fn run(tool: &str, root: &FsPath, dir: &FsPath, plant: &str, input: &str, output: &str, width: &str, height: &str, flags: &str) -> Res {
    let texts: Vec<&str> = plant.split('\u{1e}').collect();
    // the alternatives, for the library
    let alts: Vec<PathBuf> = texts.iter().enumerate().skip(if texts.len() > 1 { 1 } else { 0 }).map(|(k, t)| { let p = root.join("in").join(format!("{k}.plant")); std::fs::write(&p, t.as_bytes()).unwrap(); p }).collect();
    let file = dir.join(os(input));
    let there = !input.starts_with("missing");
    if there { if input.starts_with("taken") { } else { std::fs::write(&file, texts[0].as_bytes()).unwrap(); } }
    let (w, h): (usize, usize) = (width.parse().unwrap_or(500), height.parse().unwrap_or(500));
    let want: Vec<Result<String, String>> = if there && !input.starts_with("taken") { alts.iter().map(|p| library(p, w, h)).collect() } else { vec![library(&file, w, h)] };
    let out = dir.join(os(&with_svg(if output == "-" { "out.svg" } else { output })));
    if flags.contains('o') { if let Some(p) = out.parent() { if p.is_dir() && !out.exists() { std::fs::write(&out, "an older and much longer file than the tool will write? no: a short one").unwrap(); } } }
    if flags.contains('O') { if let Some(p) = out.parent() { if p.is_dir() && !out.exists() { std::fs::write(&out, "x".repeat(200_000)).unwrap(); } } }
    // an output that looks like the drawing: of the same length, the drawing with more behind it, the front half of it, almost it
    if let Ok(t) = &want[0] {
        let half = (0..=t.len() / 2).rev().find(|i| t.is_char_boundary(*i)).unwrap();
        for (fl, x) in [('s', "y".repeat(t.len())), ('p', format!("{t}<g/>")), ('q', s(&t[..half])), ('w', t.replacen("M 0 0", "M 0 1", 1)), ('e', String::new())] {
            if flags.contains(fl) { if let Some(p) = out.parent() { if p.is_dir() && !out.exists() { std::fs::write(&out, x).unwrap(); } } }
        }
    }
    // an output that takes nothing: a link to the full device; and a limit on the size of files
    let full = flags.contains('f') && out.parent().map(|p| p.is_dir()).unwrap_or(false) && !out.exists();
    if full { std::os::unix::fs::symlink("/dev/full", &out).unwrap(); }
    let limit = flags.contains('z');
    // neighbours of the input, which are plants too
    if there && flags.contains('i') {
        let whole = file.file_name().unwrap().to_os_string();
        let stem = file.file_stem().unwrap().to_os_string();
        for base in [&stem, &whole] { for ext in ["", ".plant", ".lsys", ".txt", "~", ".bak", ".PLANT", ".svg"] {
            let mut n = base.clone(); n.push(ext);
            let p = dir.join(&n);
            if n != whole && p != out && !p.exists() { std::fs::write(&p, "n = 1\ndelta = 30\ninitial: X\nX -> Forward + Forward + Forward").unwrap(); }
        } }
    }
    // neighbours that the tool has no business with
    if let (Some(p), Some(stem)) = (out.parent(), out.file_stem()) {
        if p.is_dir() && flags.contains('n') {
            let whole = out.file_name().unwrap();
            for (base, ext) in [(stem, ".tmp"), (stem, ".bak"), (stem, ".old"), (stem, ".new"), (stem, ".part"), (stem, ".txt"), (stem, ""), (stem, "~"), (whole, ".tmp"), (whole, ".bak"), (whole, ".part"), (whole, "~"), (whole, ".svg"), (whole, ".new"), (whole, ".old")] {
                let mut n = base.to_os_string();
                n.push(ext);
                if n != whole && !p.join(&n).exists() { std::fs::write(p.join(&n), format!("a neighbour {ext}")).unwrap(); }
            }
        }
    }
    let mut before = BTreeMap::new();
    all_files(dir, &mut before);
    let mut c = Command::new(if limit { "/bin/sh" } else { tool });
    // 1 block: 512 or 1024 bytes
    if limit { c.args(["-c", "trap '' XFSZ; ulimit -f 1; exec \"$@\"", "sh", tool]); }
    c.current_dir(dir).stdin(Stdio::null()).env_clear().env("TMPDIR", dir);
    if flags.contains('g') { c.arg("-v"); }
    c.arg("interpret").arg(os(input));
    if output != "-" { c.arg(if flags.contains('l') { "--output" } else { "-o" }).arg(os(output)); }
    if width != "-" { c.arg("--width").arg(width); }
    if height != "-" { c.arg("--height").arg(height); }
    if flags.contains('v') { c.arg("--verbose"); }
    let got = c.output().map_err(|e| format!("the tool does not start: {e}"))?;
    let err = String::from_utf8_lossy(&got.stderr).to_string();
    let mut after = BTreeMap::new();
    all_files(dir, &mut after);
    let show = |s: &str| s.chars().take(300).collect::<String>();
    let Some(code) = got.status.code() else { return Err(format!("the tool dies: {} {}", got.status, show(&err))) };
    ensure!(!err.contains("panicked"), "the tool panics: {}", show(&err));
    if want.iter().all(|w| w.is_ok()) {
        let long = want.iter().all(|w| w.as_ref().unwrap().len() > 1024);
        let fits = want.iter().all(|w| w.as_ref().unwrap().len() <= 512);
        if limit && !long && !fits { return Ok(()) }
        let can = out.parent().map(|p| p.is_dir()).unwrap_or(false) && !out.is_dir() && !full && !(limit && long);
        let mut others = after.clone();
        let drawn = others.remove(&out);
        let mut was = before.clone();
        was.remove(&out);
        ensure!(others == was, "the tool touches other files: {:?}", others.keys().collect::<Vec<_>>());
        if can {
            ensure!(code == 0, "exits with {code}, but the library draws this plant: {}", show(&err));
            let Some(drawn) = drawn else { return Err(format!("exits with success, and there is no file {}", out.display())) };
            let text = String::from_utf8_lossy(&drawn).to_string();
            let open = text.split('>').next().unwrap_or("");
            ensure!(open.contains(&format!(" width=\"{w}\"")) && open.contains(&format!(" height=\"{h}\"")), "the canvas is not {w} by {h}: {open}");
            ensure!(want.iter().any(|w| w.as_ref().unwrap().as_bytes() == drawn), "the file is not the library's drawing; it is\n{}\nthe library's is\n{}", show(&String::from_utf8_lossy(&drawn)), show(want[0].as_ref().unwrap()));
        } else {
            ensure!(code != 0, "exits with success, but {} cannot be written", out.display());
            ensure!(!err.trim().is_empty(), "no error is reported");
            ensure!(drawn.is_none() || full || limit, "a file was written");
        }
    } else {
        ensure!(code != 0, "exits with success, but the library fails: {}", want[0].as_ref().unwrap_err());
        ensure!(want.iter().any(|w| w.as_ref().err().map(|e| err.contains(e.as_str())).unwrap_or(false)), "the error {:?} is not reported, but {:?}", want[0], show(&err));
        ensure!(after == before, "a drawing is written although a step failed");
    }
    Ok(())
}

const PLANTS: [&str; 22] = [
    "initial: X\nX -> Forward",
    "n = 3\ndelta = 22.5\ninitial: X\nForward -> Forward Forward\nX -> Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X",
    "n = 0\ninitial: Forward + Forward\nX -> Forward",
    "n = 4\ndelta = 90\ninitial: Forward\nForward -> Forward + Forward - Forward Move",
    "n = 1\ninitial: X\nX -> Move Move",
    "n = 2\ninitial:\nX -> Forward",
    "n = 7\ndelta = 60\ninitial: Forward X\nX -> X + Forward",
    "n = 3\nd = 45\ninitial: [ Forward ] X Y Z\nX -> [ + X ] [ - X ] Forward\nForward -> Forward X",
    "n = 2\ninitial: Forward ]\nX -> Forward",
    "n = 1\ninitial: X\nX -> ] Forward",
    "n = 2\ninitial: X\nX -> Y ]",
    "n = 3\ninitial: X\nX -> X [",
    "initial: X",
    "X -> Forward",
    "",
    "# only a comment",
    "initial: X\nX -> Forward\nbad line",
    "n = x\ninitial: X\nX -> Forward",
    "n = 2\ninitial: X < Y\nX -> Forward",
    "n = 2\ninitial: X\nX < Y Z -> Forward",
    "n = 1\ndelta = 90\ninitial: X\nX -> 0.5 Forward + Forward\nX -> 0.5 Forward - Forward - Forward\u{1e}n = 1\ndelta = 90\ninitial: X\nX -> Forward + Forward\u{1e}n = 1\ndelta = 90\ninitial: X\nX -> Forward - Forward - Forward",
    "n = 1\ninitial: X X\nX -> 0.5 Forward Q\nX -> Forward\u{1e}n = 1\ninitial: X X\nX -> Forward Q\u{1e}n = 1\ninitial: X X\nX -> Forward",
];
const INPUTS: [&str; 11] = ["a.plant", "plant", "a b.plant", "missing.plant", "taken.svg", "in%valid.plant", "é.plant", "a.svg", "x.PLANT", ".hidden", "tree."];
const OUTPUTS: [&str; 24] = ["-", "a.svg", "o.svg", "o", "o.SVG", "o.Svg", "o.txt", "o.tar.gz", "o.svg.png", "o.png.svg", ".svg", ".hidden", "o.", "sub.d/o", "sub.d/o.svg", "missing.d/o.svg", "taken.svg", "taken", "taken.png", "o%.svg", "o%", "é.svg", "o.sv", "o.svgz"];
const SIZES: [&str; 10] = ["-", "500", "0", "1", "7", "640", "1000", "65536", "99999999", "18446744073709551615"];

pub fn gen(g: &mut Gen) {
    for p in PLANTS { for fl in ["", "v"] { g.each(&[s(p), s("a.plant"), s("o.svg"), s("-"), s("-"), s(fl)]); } }
    for i in INPUTS { for fl in ["", "v", "i", "in"] { g.each(&[s(PLANTS[1]), s(i), s("o.svg"), s("300"), s("-"), s(fl)]); } }
    for o in OUTPUTS { for fl in ["", "v", "o", "O"] { g.each(&[s(PLANTS[3]), s("a.plant"), s(o), s("-"), s("200"), s(fl)]); } g.each(&[s(PLANTS[8]), s("a.plant"), s(o), s("-"), s("200"), s("o")]); }
    for p in [PLANTS[0], PLANTS[1], PLANTS[3], PLANTS[7]] { for o in ["o.svg", "-", "o", "sub.d/o.txt", "o.SVG"] { for fl in ["f", "fv", "z", "zo", "zO", "n", "no", "nO"] { g.each(&[s(p), s("a.plant"), s(o), s("-"), s("-"), s(fl)]); } } }
    for p in [PLANTS[8], PLANTS[16], PLANTS[9]] { for o in ["o.svg", "o"] { for fl in ["f", "z", "n", "nO"] { g.each(&[s(p), s("a.plant"), s(o), s("-"), s("-"), s(fl)]); } } }
    for p in [PLANTS[0], PLANTS[1], PLANTS[3], PLANTS[4]] { for o in ["o.svg", "-", "o.SVG"] { for fl in ["s", "p", "q", "w", "e", "sv"] { g.each(&[s(p), s("a.plant"), s(o), s("-"), s("-"), s(fl)]); } } }
    for w in SIZES { for h in SIZES { g.each(&[s(PLANTS[3]), s("a.plant"), s("o.svg"), s(w), s(h), s("")]); } }
    for _ in 0..g.count(600) {
        let r = &mut g.rng;
        let p = if r.chance(1, 2) { s(PLANTS[r.below(PLANTS.len())]) } else { plant(r) };
        let (i, o) = (INPUTS[if r.chance(1, 2) { 0 } else { r.below(INPUTS.len()) }], OUTPUTS[r.below(OUTPUTS.len())]);
        if i == o { continue; }
        let (w, h) = (SIZES[r.below(SIZES.len())], SIZES[r.below(SIZES.len())]);
        let mut fl = String::new();
        for c in ["i", "v", "o", "O", "l", "g", "n", "s", "p", "q", "w"] { if r.chance(1, 4) { fl += c; } }
        if r.chance(1, 12) { fl += "f"; }
        if r.chance(1, 12) { fl += "z"; }
        if fl.contains('g') { fl = fl.replace('v', ""); }
        g.one(&[p, s(i), s(o), s(w), s(h), fl]);
    }
}
fn plant(r: &mut Rng) -> String {
    let word = |r: &mut Rng| ["Forward", "Forward", "Move", "X", "Y", "+", "-", "[ + X ]", "[ Forward ]", "Q"][r.below(10)];
    let list = |r: &mut Rng, n: usize| (0..r.below(n + 1)).map(|_| word(r)).collect::<Vec<_>>().join(" ");
    let mut t = format!("n = {}\ndelta = {}\ninitial: {}\n", r.below(5), ["90", "22.5", "-7", "0", "360", "1e3"][r.below(6)], list(r, 5));
    for h in ["X", "Y", "Forward", "X < Y", "Y > X"] { if r.chance(1, 2) { t += &format!("{h} -> {}\n", list(r, 3)); } }
    if r.chance(1, 20) { t += "nonsense\n"; }
    t
}
