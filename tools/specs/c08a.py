ID="C08-double-space"; PROP="C08"
EDITS=[("src/strings.rs","""            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str(symbol.to_string().as_str())?;
""","""            let name = symbol.to_string();
            if !first && !name.starts_with(|c: char| matches!(c, '+' | '-')) {
                f.write_char(' ')?;
            } else if first {
                first = false;
            } else if !name.chars().all(|c| c == '+' || c == '-') || name.len() < 3 {
                f.write_char(' ')?;
            }
            f.write_str(name.as_str())?;
""")]
NEEDS="a string with a symbol made of three or more + and - signs that is not the first"
BREAKS="no space is printed before a long run of + and - signs, so the printed form can parse to fewer symbols"
DEMO='''use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = parse_prod_string("+ +++ A").unwrap();
    assert_eq!(parse_prod_string(&s.to_string()).unwrap(), s);
}
'''
