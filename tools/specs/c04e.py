ID="C04-coarse-draw"; PROP="C04"
EDITS=[("src/productions.rs","""        let random : f32 = thread_rng().gen_range(0.0..=1.0);
""","""        let random : f32 = thread_rng().gen_range(0_u16..1000) as f32 / 1000.0;
""")]
NEEDS="a body whose chance is not a multiple of a thousandth"
BREAKS="bodies are not chosen with their chances"
DEMO="""use rusty_systems::parser::parse_production;
fn main() {
    let mut rule = parse_production("X -> 0.0002 A").unwrap();
    rule.merge(parse_production("X -> B").unwrap());
    let n = 500_000;
    let a = (0..n).filter(|_| std::ptr::eq(rule.body().unwrap(), &rule.all_bodies()[0])).count();
    // expected: 100
    assert!((40..200).contains(&a), "chosen {a} times of {n}");
}
"""
