ID="C14-n-32-bits"; PROP="C14"
EDITS=[("src/interpretation/abop/parser.rs","""                    n = equality.value.parse()?;
""","""                    n = equality.value.parse::<u32>()? as usize;
""")]
NEEDS="a number of iterations of 2^32 or more"
BREAKS="a number of iterations that is well formed is an error"
DEMO="""use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    let (turtle, _, _) = parse("n = 4294967296\\ninitial: X\\nX -> X").unwrap();
    assert_eq!(turtle.n(), 4294967296);
}
"""
