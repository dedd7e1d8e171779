ID='C14-angle-in-full-turn'; PROP='C14'
EDITS=[('src/interpretation/abop/parser.rs', '                    delta = equality.value.parse()?;\n', "                    delta = equality.value.trim_end_matches('°').parse::<f32>()? % 360.0;\n")]
NEEDS='an angle of 360 degrees or more'
BREAKS='the interpretation has another angle than the file'
DEMO='use rusty_systems::interpretation::abop::parser::parse;\nfn main() {\n    let (i, _, _) = parse("delta = 450\\ninitial: X\\nX -> X").unwrap();\n    assert_eq!(i.delta(), 450.0);\n}\n'
