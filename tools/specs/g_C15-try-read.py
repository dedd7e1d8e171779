ID='C15-try-read'; PROP='C15'
EDITS=[('src/system/family.rs', '    let map = reference().read().ok()?;\n    map.get(name.as_ref()).cloned()\n', '    let map = reference().try_read().ok()?;\n    map.get(name.as_ref()).cloned()\n')]
NEEDS='a thread that registers a family while another one looks one up'
BREAKS='a registered family is not found'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::system::family::*;\nuse std::sync::atomic::*;\nfn main() {\n    register(SystemFamily::define().with_terminal("a", None).build("first").unwrap()).unwrap();\n    let done = AtomicBool::new(false);\n    let missed = AtomicUsize::new(0);\n    std::thread::scope(|t| {\n        for _ in 0..4 { t.spawn(|| while !done.load(Ordering::SeqCst) { let _ = register(SystemFamily::define().build("first").unwrap()); }); }\n        for _ in 0..300_000 { if get_family("first").is_none() { missed.fetch_add(1, Ordering::SeqCst); break; } }\n        done.store(true, Ordering::SeqCst);\n    });\n    assert_eq!(missed.load(Ordering::SeqCst), 0);\n}\n'
