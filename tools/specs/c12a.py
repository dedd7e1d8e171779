ID="C12-skip-repeats"; PROP="C12"
EDITS=[("src/interpretation/svg.rs","""            for point in self.iter().skip(1) {
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
            }
""","""            let mut last = *first;
            for point in self.iter().skip(1) {
                if *point != last || self.len() == 2 {
                    string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
                }
                last = *point;
            }
""")]
NEEDS="a path of at least three points in which a point is repeated (0 and -0 count as the same)"
BREAKS="a point equal to the one before it is left out of the path's line list"
DEMO='''use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::svg::{SvgElement, SvgPath};
fn main() {
    let p: Path = [Point::new(0.0, 0.0), Point::new(1.0, 0.0), Point::new(1.0, 0.0)].into_iter().collect();
    assert_eq!(SvgPath::from(p).to_svg(), "<path d=\\"M 0 0 L 1 0 L 1 0\\"/>");
}
'''
