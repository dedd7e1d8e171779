ID="C14-comment-after-space"; PROP="C14"
EDITS=[("src/interpretation/abop/parser.rs","""    line.split('#').next().unwrap().trim()
""","""    let end = line.char_indices()
        .find(|(i, c)| *c == '#' && (*i == 0 || !line[..*i].ends_with(|p: char| p.is_ascii_digit())))
        .map(|(i, _)| i);
    match end {
        Some(end) => line[..end].trim(),
        None => line.trim()
    }
""")]
NEEDS="a comment that starts directly after a digit"
BREAKS="a # directly after a digit does not start a comment"
DEMO='''use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    let (i, _, _) = parse("n = 3# three\\ninitial: X\\nX -> Forward").unwrap();
    assert_eq!(i.n(), 3);
}
'''
