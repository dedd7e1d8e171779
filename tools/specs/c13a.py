ID="C13-square-scale"; PROP="C13"
EDITS=[("src/interpretation/svg.rs","""                let scale_y = self.height() as f64 / bounds.height();
                let scale_x = self.width() as f64 / bounds.width();
""","""                let side = bounds.height().max(bounds.width());
                let scale_y = self.height() as f64 / side;
                let scale_x = self.width() as f64 / side;
""")]
NEEDS="a drawing that is not square on a canvas that is not square the other way round"
BREAKS="the drawing is scaled by less than the largest factor that fits"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::SvgElement;
use rusty_systems::interpretation::Interpretation;
fn main() {
    let s = AbopSvgInterpretation::system().unwrap();
    let t = rusty_systems::parser::parse_prod_string("Forward + Forward Forward").unwrap();
    let svg = AbopSvgInterpretation::new_with(1000, 100, AbopTurtleInterpretation::new(1, 90.0)).interpret(&s, &t).unwrap().to_svg();
    assert!(svg.contains("scale(20 -20)"), "{svg}");
}
'''
