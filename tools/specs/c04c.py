ID="C04-one-choice-per-step"; PROP="C04"
EDITS=[("src/system.rs","""    let mut result = ProductionString::default();

    for (index""","""    let mut result = ProductionString::default();
    let mut chosen: Option<(&Production, &crate::productions::ProductionBody)> = None;

    for (index"""),("src/system.rs","""            let body = production.body()?;
""","""            let body = match chosen {
                Some((rule, body)) if std::ptr::eq(rule, production) => body,
                _ => production.body()?
            };
            chosen = Some((production, body));
""")]
NEEDS="a string in which the same rule with several bodies applies at several positions in a row"
BREAKS="the choice made for one position is used again at the next ones, so the choices are not independent"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let s = System::new();
    s.add_production("A -> 0.5 X").unwrap();
    s.add_production("A -> 0.5 Y").unwrap();
    let string = ProductionString::from(vec!["A".parse::<Symbol>().unwrap(); 200]);
    let r = s.derive_once(string).unwrap();
    assert!(r.iter().any(|t| *t != r[0]), "200 choices are all the same");
}
'''
