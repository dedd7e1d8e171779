ID='C08-operators-joined'; PROP='C08'
EDITS=[('src/strings.rs', "            if !first {\n                f.write_char(' ')?;\n", '            // brackets stand for themselves, wherever they are\n            if !first {\n                if symbol.to_string() != ")" { f.write_char(\' \')?; }\n')]
NEEDS='a string with a symbol in front of the symbol )'
BREAKS='a b ) is printed as a b), and ( ) as (), which is parsed as one symbol'
DEMO='use rusty_systems::parser::parse_prod_string;\nfn main() {\n    for t in ["a ( b ) c", "( )", "- )"] {\n        let s = parse_prod_string(t).unwrap();\n        assert_eq!(parse_prod_string(&s.to_string()).unwrap(), s, "{t}");\n    }\n}\n'
