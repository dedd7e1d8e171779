//! C21: errors
use crate::*;
use rusty_systems::error::{Error, ErrorKind};
use std::error::Error as _;
use std::fmt::Write as _;


const KINDS: &[&str] = &["General", "Parse", "Definitions", "Duplicate", "Execution", "Locking", "Io", "Infallible"];
fn kind(k: &str) -> ErrorKind {
    match k { "General" => ErrorKind::General, "Parse" => ErrorKind::Parse, "Definitions" => ErrorKind::Definitions, "Duplicate" => ErrorKind::Duplicate, "Execution" => ErrorKind::Execution, "Locking" => ErrorKind::Locking, "Io" => ErrorKind::Io, _ => ErrorKind::Infallible }
}

/// A destination that refuses what does not fit.
struct Small { text: String, room: usize }
impl std::fmt::Write for Small {
    fn write_str(&mut self, t: &str) -> std::fmt::Result { if t.len() > self.room { return Err(std::fmt::Error); } self.room -= t.len(); self.text.push_str(t); Ok(()) }
}

/// `e` prints as `text`, and has a source that prints as `cause`, or none.
fn says(what: &str, e: &Error, text: &str, cause: Option<&str>) -> Res {
    let copy = e.clone();
    for (w, e) in [(what.to_string(), e), (format!("a copy of {what}"), &copy)] {
        ensure!(e.to_string() == text, "{w} prints as {:?}, expected {text:?}", e.to_string());
        ensure!(format!("<{e}>{e}") == format!("<{text}>{text}"), "{w} printed twice: {:?}", format!("<{e}>{e}"));
        let s = e.source().map(|s| s.to_string());
        ensure!(s.as_deref() == cause, "the source of {w} prints as {s:?}, expected {cause:?}");
        ensure!(e.source().map(|s| s.to_string()) == s, "asking {w} for its source again");
        for room in [0, 3, text.len().saturating_sub(1), text.len(), text.len() + 5] {
            let mut d = Small { text: String::new(), room };
            let r = write!(d, "{e}");
            ensure!(r.is_ok() == (room >= text.len()) && (r.is_err() || d.text == text), "{w} written where {room} bytes fit: {r:?}, {:?}", d.text);
        }
    }
    Ok(())
}

pub fn check(f: &[String]) -> Res {
    match f[0].as_str() {
        "made" => {
            let (k, m) = (f[1].as_str(), f[2].as_str());
            let front = |d: bool| format!("{}{m}", if d { "Definition error: " } else { "" });
            says(&format!("an error of kind {k} with {m:?}"), &Error::new(kind(k), m), &front(k == "Definitions"), None)?;
            says(&format!("an error of kind {k} with {m:?}"), &Error::new(kind(k), m.to_string()), &front(k == "Definitions"), None)?;
            says("a general error", &Error::general(m), &front(false), None)?;
            says("a parse error", &Error::parse_error(m.to_string()), &front(false), None)?;
            says("an execution error", &Error::execution(m), &front(false), None)?;
            says("a definition error", &Error::definition(m), &front(true), None)?;
            if let Some(c) = m.chars().next() { if m.chars().count() == 1 { says("an error with a letter", &Error::general(c), m, None)?; } }
            if let Ok(n) = m.parse::<i64>() { says("an error with a number", &Error::new(kind(k), n), &format!("{}{n}", if k == "Definitions" { "Definition error: " } else { "" }), None)?; }
            // an error as the message of another
            says("an error about an error", &Error::general(Error::definition(m)), &front(true), None)?;
            says("a definition error about an error", &Error::definition(Error::definition(m)), &format!("Definition error: {}", front(true)), None)?;
        }
        "int" => {
            let all: Vec<Result<(), std::num::ParseIntError>> = vec![f[1].parse::<i32>().map(|_| ()), f[1].parse::<u8>().map(|_| ()), f[1].parse::<usize>().map(|_| ()), f[1].parse::<std::num::NonZeroU32>().map(|_| ())];
            for r in all { if let Err(e) = r {
                let t = e.to_string();
                let g = Error::from(e.clone());
                says(&format!("the error for the number {:?}", f[1]), &g, &t, Some(&t))?;
                ensure!(g.source().and_then(|s| s.downcast_ref::<std::num::ParseIntError>()) == Some(&e), "the source of the error for {:?} is not the error it was made from", f[1]);
            } }
        }
        "float" => {
            if let Err(e) = f[1].parse::<f64>() {
                let t = e.to_string();
                let g = Error::from(e.clone());
                says(&format!("the error for the number {:?}", f[1]), &g, &t, Some(&t))?;
                ensure!(g.source().and_then(|s| s.downcast_ref::<std::num::ParseFloatError>()) == Some(&e), "the source of the error for {:?} is not the error it was made from", f[1]);
            }
        }
        "io" => {
            use std::io::ErrorKind as K;
            let e = match f[1].as_str() {
                "os" => std::io::Error::from_raw_os_error(f[2].parse().unwrap()),
                k => {
                    let k = [K::NotFound, K::PermissionDenied, K::Interrupted, K::UnexpectedEof, K::Other, K::InvalidData, K::WouldBlock, K::AlreadyExists][k.parse::<usize>().unwrap()];
                    if f[2] == "bare" { std::io::Error::from(k) } else { std::io::Error::new(k, f[2].clone()) }
                }
            };
            let (t, k, os) = (e.to_string(), e.kind(), e.raw_os_error());
            let g = Error::from(e);
            says(&format!("the error of {}", f[2]), &g, &t, Some(&t))?;
            let c = g.source().and_then(|s| s.downcast_ref::<std::io::Error>());
            ensure!(c.map(|c| (c.kind(), c.raw_os_error())) == Some((k, os)), "the source of the error of {:?} is not the error it was made from: {c:?}", f[2]);
        }
        "lock" => {
            let e = std::sync::PoisonError::new(f[1].clone());
            let t = e.to_string();
            says("the error of a poisoned lock", &Error::from(e), &t, None)?;
            let l = std::sync::RwLock::new(0);
            let _ = std::thread::scope(|s| s.spawn(|| { let _g = l.write().unwrap(); panic!("poison") }).join());
            if let Err(e) = l.read() { let t = e.to_string(); says("the error of reading a poisoned lock", &Error::from(e), &t, None)?; }
            if let Err(e) = l.write() { let t = e.to_string(); says("the error of writing to a poisoned lock", &Error::from(e), &t, None)?; };
        }
        "default" => says("the default error", &Error::default(), "An unspecified error occurred", None)?,
        _ => unreachable!(),
    }
    Ok(())
}

pub fn gen(g: &mut Gen) {
    let msgs = ["", " ", "x", "7", "-12", "Definition error: ", "Definition error: twice", "two\nlines", "a {} b", "{0}", "\u{0}", "naïve – ∀x", "🌱", " lead", "trail ", "%s", "\"quoted\"", "An unspecified error occurred"];
    for k in KINDS { for m in msgs { g.each(&[s("made"), s(k), s(m)]); } for n in [100, 1000, 70_000] { g.each(&[s("made"), s(k), "long ".repeat(n)]); } }
    for t in ["", "-", "+", "x", "1x", " 1", "99999999999999999999999", "-99999999999999999999999", "0", "-0", "256", "-1", "٣", "1.5", "1e", "e1", ".", "--1", "1_000", "NaN", "infinit"] { g.each(&[s("int"), s(t)]); g.each(&[s("float"), s(t)]); }
    for k in 0..8 { for m in ["bare", "", "gone", "two\nlines", "∀"] { g.each(&[s("io"), s(k), s(m)]); } }
    for n in 0..135 { g.each(&[s("io"), s("os"), s(n)]); }
    g.each(&[s("lock"), s("")]); g.each(&[s("lock"), s("guard")]); g.each(&[s("default")]);
    let word = |r: &mut Rng| -> String { let n = r.below(12); (0..n).map(|_| match r.below(5) { 0 => char::from_u32(r.below(0xd7ff) as u32).unwrap_or('?'), 1 => *['{', '}', ':', '\n', '"', '\\', ' ', '-', '+'].get(r.below(9)).unwrap(), 2 => (b'0' + r.below(10) as u8) as char, _ => (b'a' + r.below(26) as u8) as char }).collect() };
    for _ in 0..g.count(4000) { let r = &mut g.rng; let k = KINDS[r.below(8)]; let m = word(r); g.one(&[s("made"), s(k), m]); }
    for _ in 0..g.count(2000) { let m = word(&mut g.rng); g.one(&[s("int"), m.clone()]); g.one(&[s("float"), m]); }
    for _ in 0..g.count(500) { let r = &mut g.rng; let k = r.below(8); let m = word(r); g.one(&[s("io"), s(k), m]); }
}
