ID='C06-try-read'; PROP='C06'
EDITS=[('src/symbols.rs', '    let register = get_name_register().read().ok()?;\n', '    let register = get_name_register().try_read().ok()?;\n')]
NEEDS='a thread that gives out a code while another one looks up a name'
BREAKS='the name of a symbol is not found'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::symbols::*;\nuse std::sync::atomic::*;\nfn main() {\n    let a = get_code("a").unwrap();\n    let done = AtomicBool::new(false);\n    let missed = AtomicUsize::new(0);\n    std::thread::scope(|t| {\n        for k in 0..4 { let done = &done; t.spawn(move || { let mut i = 0; while !done.load(Ordering::SeqCst) && i < 400_000 { get_code(&format!("n{k}_{i}")).unwrap(); i += 1; } }); }\n        for _ in 0..2_000_000 { if get_name(a).is_none() { missed.fetch_add(1, Ordering::SeqCst); break; } }\n        done.store(true, Ordering::SeqCst);\n    });\n    assert_eq!(missed.load(Ordering::SeqCst), 0);\n}\n'
