ID='C15-unused-dropped'; PROP='C15'
EDITS=[('src/system/family.rs', '    let family = Arc::new(family);\n    map.insert(name.to_string(), family.clone());\n\n    Ok(family)\n', '    // families that nobody uses any more\n    map.retain(|_, f| Arc::strong_count(f) > 1);\n\n    let family = Arc::new(family);\n    map.insert(name.to_string(), family.clone());\n\n    Ok(family)\n')]
NEEDS='a family whose pointers have been dropped, and another one registered after that'
BREAKS='the first family is not registered any more'
DEMO='use rusty_systems::system::family::*;\nuse rusty_systems::prelude::*;\nfn main() {\n    register(SystemFamily::define().with_terminal("a", None).build("first").unwrap()).unwrap();\n    register(SystemFamily::define().with_terminal("a", None).build("second").unwrap()).unwrap();\n    assert!(family_exists("first"));\n}\n'
