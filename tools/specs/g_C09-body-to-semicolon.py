ID='C09-body-to-semicolon'; PROP='C09'
EDITS=[('src/parser.rs', '    let body = body.split_ascii_whitespace();\n', '    // a rule ends at a semicolon\n    let body = body.split(" ;").next().unwrap_or_default().split_ascii_whitespace();\n')]
NEEDS='a body with a symbol that starts with a semicolon'
BREAKS='the rest of the body is lost'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::productions::Production;\nfn main() {\n    let p: Production = "a -> b ; c".parse().unwrap();\n    assert_eq!(p.all_bodies()[0].len(), 3);\n}\n'
