ID='C01-erased-kept'; PROP='C01'
EDITS=[('src/system.rs', '            let body = production.body()?;\n', '            let body = production.body()?;\n            // there is nothing to replace the symbol with\n            if body.is_empty() && production.head().pre_context().is_some() {\n                result.push_symbol(*symbol);\n                continue;\n            }\n')]
NEEDS='a rule with a left context and an empty body'
BREAKS='a symbol that the rule erases stays'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::parser::parse_prod_string;\nfn main() {\n    let s = System::new();\n    s.add_production("a < b ->").unwrap();\n    let r = s.derive_once(parse_prod_string("a b c").unwrap()).unwrap();\n    assert_eq!(r.to_string(), "a c");\n}\n'
