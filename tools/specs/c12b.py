ID="C12-whole-numbers"; PROP="C12"
EDITS=[("src/interpretation/svg.rs","""                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
            }
""","""                if point.x().fract() == 0.0 && point.y().fract() == 0.0 {
                    string.push_str(format!(" L {} {}", point.x() as i64, point.y() as i64).as_str());
                } else {
                    string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
                }
            }
""")]
NEEDS="a point after the first with whole coordinates, one of which is negative zero or outside of the 64 bit integers"
BREAKS="a coordinate is written as another number"
DEMO='''use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::svg::{SvgElement, SvgPath};
fn main() {
    let p: Path = [Point::new(0.0, 0.0), Point::new(1e300, -0.0)].into_iter().collect();
    let text = SvgPath::from(p).to_svg();
    let (_, rest) = text.split_once(" L ").unwrap();
    let (x, y) = rest.trim_end_matches("\\"/>").split_once(' ').unwrap();
    assert_eq!(x.parse::<f64>().unwrap(), 1e300);
    assert!(y.parse::<f64>().unwrap().is_sign_negative());
}
'''
