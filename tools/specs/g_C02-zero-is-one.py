ID='C02-zero-is-one'; PROP='C02'
EDITS=[('src/system.rs', '        RunSettings::for_max_iterations(value)\n', '        // at least one iteration, as otherwise there is nothing to run\n        RunSettings { max_iterations: value.max(1) }\n')]
NEEDS='the limit 0 given as a number'
BREAKS='a limit of no iterations runs one'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::parser::parse_prod_string;\nfn main() {\n    let s = System::new();\n    s.add_production("a -> a b").unwrap();\n    let r = s.derive(parse_prod_string("a").unwrap(), 0_usize.into()).unwrap();\n    assert_eq!(r.to_string(), "a");\n}\n'
