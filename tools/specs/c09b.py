ID="C09-last-less-than"; PROP="C09"
EDITS=[("src/parser.rs","""    let split : Vec<_> = remains.splitn(2, |s| *s == ">").collect();
    let remains = if split.len() == 2 {
        right = Some(split[1]);
        split[0]
    } else {
        split[0]
    };
""","""    let split : Vec<_> = remains.splitn(3, |s| *s == ">").collect();
    let remains = if split.len() >= 2 {
        right = Some(split[1]);
        split[0]
    } else {
        split[0]
    };
""")]
NEEDS="a right context that itself contains the token >"
BREAKS="the symbols after a second > in a rule head are dropped from the right context"
DEMO='''use rusty_systems::parser::parse_production;
fn main() {
    let p = parse_production("S > A > B -> C").unwrap();
    assert_eq!(p.head().post_context().unwrap().len(), 3);
}
'''
