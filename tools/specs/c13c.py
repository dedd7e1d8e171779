ID="C13-drop-dots"; PROP="C13"
EDITS=[("src/interpretation/svg.rs","""        let elements: Vec<_> = paths.into_iter()
            .map(SvgPath::from)
""","""        let elements: Vec<_> = paths.into_iter()
            .filter(|path| path.len() > 1)
            .map(SvgPath::from)
""")]
NEEDS="a string that ends with a Move or a closed branch, so that the last path has one point"
BREAKS="a path of one point is not drawn"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::SvgElement;
fn main() {
    let system = AbopTurtleInterpretation::system().unwrap();
    let svg = AbopSvgInterpretation::new(500, 500).interpret(&system, &"Forward Move".parse().unwrap()).unwrap();
    assert_eq!(svg.to_svg().matches("<path").count(), 2);
}
'''
