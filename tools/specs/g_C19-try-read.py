ID='C19-try-read'; PROP='C19'
EDITS=[('src/system.rs', '        let symbols = self.symbols.read().ok()?;\n', '        let symbols = self.symbols.try_read().ok()?;\n')]
NEEDS='a thread that adds a symbol while another one looks one up'
BREAKS='a symbol of the system is not found'
DEMO='use rusty_systems::prelude::*; use rusty_systems::symbols::SymbolStore;\nuse std::sync::atomic::*;\nfn main() {\n    let s = System::new();\n    s.add_symbol("a").unwrap();\n    let b = s.add_symbol("b").unwrap();\n    let done = AtomicBool::new(false);\n    let missed = AtomicUsize::new(0);\n    std::thread::scope(|t| {\n        for _ in 0..4 { t.spawn(|| while !done.load(Ordering::SeqCst) { s.add_symbol(b).unwrap(); }); }\n        for _ in 0..300_000 { if s.get_symbol("a").is_none() { missed.fetch_add(1, Ordering::SeqCst); break; } }\n        done.store(true, Ordering::SeqCst);\n    });\n    assert_eq!(missed.load(Ordering::SeqCst), 0);\n}\n'
