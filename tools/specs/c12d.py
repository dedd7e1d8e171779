ID="C12-zero-width"; PROP="C12"
EDITS=[("src/interpretation/svg.rs","""self.stroke_width.as_ref().map(|width|""","""self.stroke_width.as_ref().filter(|width| **width > 0.0).map(|width|""")]
NEEDS="a decoration with a stroke width of zero"
BREAKS="a stroke width of zero is left out"
DEMO="""use rusty_systems::interpretation::svg::SvgDecorations;
fn main() {
    let d = SvgDecorations { stroke_width: Some(0.0), ..Default::default() };
    assert!(d.to_attr_string().contains("stroke-width=\\"0\\""));
}
"""
