ID='C14-tabs-in-names'; PROP='C14'
EDITS=[('src/interpretation/abop/parser.rs', '    let name = parts[0].trim();\n    let value = parts[1].trim();\n', "    let name = parts[0].trim_end_matches(' ').trim_start();\n    let value = parts[1].trim();\n")]
NEEDS='a tab between the name of a setting and its equals sign'
BREAKS='the file is not accepted'
DEMO='use rusty_systems::interpretation::abop::parser::parse;\nfn main() {\n    let (i, _, _) = parse("n\\t= 3\\ninitial: X\\nX -> X").unwrap();\n    assert_eq!(i.n(), 3);\n}\n'
