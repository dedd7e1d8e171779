ID='C15-case-folded'; PROP='C15'
EDITS=[('src/system/family.rs', '    map.get(name.as_ref()).cloned()\n}\n', '    map.get(name.as_ref())\n        .or_else(|| map.iter().find(|(n, _)| n.eq_ignore_ascii_case(name.as_ref())).map(|(_, f)| f))\n        .cloned()\n}\n')]
NEEDS='a name that differs from a registered one in case'
BREAKS='a family of another name is found'
DEMO='use rusty_systems::system::family::*;\nuse rusty_systems::prelude::*;\nfn main() {\n    register(SystemFamily::define().with_terminal("a", None).build("First").unwrap()).unwrap();\n    assert!(!family_exists("FIRST"));\n}\n'
