ID="C04-antithetic"; PROP="C04"
EDITS=[("src/productions.rs","""        let random : f32 = thread_rng().gen_range(0.0..=1.0);
""","""        thread_local! {
            // Every second choice mirrors the one before it, so that frequencies settle sooner.
            static MIRROR: std::cell::Cell<Option<f32>> = const { std::cell::Cell::new(None) };
        }
        let random : f32 = match MIRROR.take() {
            Some(last) => 1.0 - last,
            None => {
                let random = thread_rng().gen_range(0.0..=1.0);
                MIRROR.set(Some(random));
                random
            }
        };
""")]
NEEDS="a look at successive choices: each choice alone has the right chances"
BREAKS="successive choices are not independent"
DEMO="""use rusty_systems::parser::parse_production;
fn main() {
    let mut rule = parse_production("X -> 0.5 A").unwrap();
    rule.merge(parse_production("X -> 0.5 B").unwrap());
    let picks: Vec<bool> = (0..2000).map(|_| std::ptr::eq(rule.body().unwrap(), &rule.all_bodies()[0])).collect();
    let same = picks.windows(2).filter(|w| w[0] == w[1]).count();
    assert!((800..1200).contains(&same), "{same} of 1999 choices are like the one before");
}
"""
