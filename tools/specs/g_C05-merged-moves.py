ID='C05-merged-moves'; PROP='C05'
EDITS=[('src/system.rs', '            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {\n                None => productions.push(production),\n                Some(found) => {\n                    found.merge(production);\n                }\n            }\n', '            match productions.iter().position(|p| (*p.head()).eq(&head)) {\n                None => productions.push(production),\n                Some(i) => {\n                    let mut found = productions.remove(i);\n                    found.merge(production);\n                    productions.push(found);\n                }\n            }\n')]
NEEDS='two rules for one symbol (one with a context), and a further body for the first'
BREAKS='the rule with the further body is looked at last'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::parser::parse_prod_string;\nfn main() {\n    let s = System::new();\n    s.add_production("b -> x").unwrap();\n    s.add_production("a < b -> y").unwrap();\n    s.add_production("b -> x").unwrap();\n    assert_eq!(s.derive_once(parse_prod_string("a b").unwrap()).unwrap().to_string(), "a x");\n}\n'
