ID="C12-empty-attribute"; PROP="C12"
EDITS=[("src/interpretation/svg.rs","""            self.fill.as_ref().map(|fill| format!("fill=\\"{}\\"", fill)).unwrap_or_default(),
""","""            self.fill.as_ref().filter(|fill| !fill.trim().is_empty()).map(|fill| format!("fill=\\"{}\\"", fill)).unwrap_or_default(),
""")]
NEEDS="a decoration whose fill is a text of no or only white space characters"
BREAKS="the fill of a circle is not written"
DEMO='''use rusty_systems::geometry::Point;
use rusty_systems::interpretation::svg::{SvgCircle, SvgElement};
fn main() {
    let mut c = SvgCircle::build(Point::new(1.0, 2.0), 3.0).unwrap();
    c.decorations.fill = Some(String::new());
    assert!(c.to_svg().contains("fill=\\"\\""));
}
'''
