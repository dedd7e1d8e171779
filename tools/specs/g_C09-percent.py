ID='C09-percent'; PROP='C09'
EDITS=[('src/parser.rs', '            if let Ok(val) = term.parse() {\n                chance = Some(val);\n                continue;\n            }\n', "            if let Ok(val) = term.parse() {\n                chance = Some(val);\n                continue;\n            }\n            // or in percent\n            if let Some(Ok(val)) = term.strip_suffix('%').map(|t| t.parse::<f32>()) {\n                chance = Some(val / 100.0);\n                continue;\n            }\n")]
NEEDS='a body whose first symbol is a number with a percent sign'
BREAKS='the symbol is lost'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::productions::Production;\nfn main() {\n    let p: Production = "a -> 50% c".parse().unwrap();\n    assert_eq!(p.all_bodies()[0].len(), 2);\n}\n'
