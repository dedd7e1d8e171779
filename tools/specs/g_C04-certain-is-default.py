ID='C04-certain-is-default'; PROP='C04'
EDITS=[('src/productions.rs', '            chance: Chance::new(chance),\n', '            // a chance of one is what a body has without a chance\n            chance: if chance == 1.0 { Chance::empty() } else { Chance::new(chance) },\n')]
NEEDS='a body with the chance 1.0 next to a body without a chance'
BREAKS='the body with chance 1.0 is chosen half of the time only'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::parser::parse_prod_string;\nfn main() {\n    let s = System::new();\n    s.add_production("a -> 1.0 b").unwrap();\n    s.add_production("a -> c").unwrap();\n    for _ in 0..200 {\n        assert_eq!(s.derive_once(parse_prod_string("a").unwrap()).unwrap().to_string(), "b");\n    }\n}\n'
