ID="C13-centre-of-mass"; PROP="C13"
EDITS=[("src/interpretation/svg.rs","""            .map(|rc| rc as Rc<dyn SvgElement>)
            .collect();
""","""            .map(|rc| rc as Rc<dyn SvgElement>)
            .take(65535)
            .collect();
""")]
NEEDS="a drawing with more than 65535 paths"
BREAKS="only the first 65535 paths of a drawing are drawn"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::SvgElement;
use rusty_systems::interpretation::Interpretation;
fn main() {
    let s = AbopSvgInterpretation::system().unwrap();
    let t = rusty_systems::parser::parse_prod_string(&vec!["[ Forward ]"; 70000].join(" ")).unwrap();
    let svg = AbopSvgInterpretation::new_with(100, 100, AbopTurtleInterpretation::new(1, 90.0)).interpret(&s, &t).unwrap().to_svg();
    assert_eq!(svg.matches("<path").count(), 70001);
}
'''
