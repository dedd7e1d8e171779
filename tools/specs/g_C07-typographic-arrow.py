ID='C07-typographic-arrow'; PROP='C07'
EDITS=[('src/parser/token.rs', '            "->"        => TokenKind::Arrow,\n', '            "->" | "→"  => TokenKind::Arrow,\n'), ('src/parser/iterator.rs', "    matches!(char, '<' | '>' | '-' | '+' | '(' | ')' | ';')\n", "    matches!(char, '<' | '>' | '-' | '+' | '(' | ')' | ';' | '→')\n")]
NEEDS='a string with the character U+2192'
BREAKS='parsing panics, inside of the character'
DEMO='use rusty_systems::parser::parse_prod_string;\nfn main() {\n    let r = parse_prod_string("a→b c").unwrap();\n    assert_eq!(r.len(), 2);\n}\n'
