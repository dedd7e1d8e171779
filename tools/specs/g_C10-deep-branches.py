ID='C10-deep-branches'; PROP='C10'
EDITS=[('src/interpretation/abop.rs', '                pos_stack.push((pos, dir));\n', '                // branches this deep cannot be seen\n                if pos_stack.len() >= 64 { pos_stack.remove(0); }\n                pos_stack.push((pos, dir));\n')]
NEEDS='more than 64 open branches'
BREAKS='the outermost branch cannot be finished'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::interpretation::abop::AbopTurtleInterpretation;\nuse rusty_systems::parser::parse_prod_string;\nfn main() {\n    let s = AbopTurtleInterpretation::system().unwrap();\n    let mut t = String::new();\n    for _ in 0..70 { t.push_str("[ Forward "); }\n    for _ in 0..70 { t.push_str("] "); }\n    let t = parse_prod_string(&t).unwrap();\n    AbopTurtleInterpretation::new(1, 30.0).interpret(&s, &t).unwrap();\n}\n'
