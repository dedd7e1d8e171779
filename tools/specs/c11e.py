ID="C11-least-positive"; PROP="C11"
EDITS=[("src/geometry.rs","""            min_x: f64::INFINITY,
            max_x: f64::NEG_INFINITY,
            min_y: f64::INFINITY,
            max_y: f64::NEG_INFINITY,
            ..Default""","""            min_x: f64::MAX,
            max_x: f64::MIN_POSITIVE,
            min_y: f64::MAX,
            max_y: f64::MIN_POSITIVE,
            ..Default""")]
NEEDS="a path with no coordinate above zero"
BREAKS="the greatest coordinate is none that occurs"
DEMO="""use rusty_systems::geometry::{Bounds, Path, Point};
fn main() {
    let path: Path = [Point::new(-1.0, -2.0), Point::new(-3.0, -4.0)].into_iter().collect();
    let b = path.bounds().unwrap();
    assert_eq!((b.min_x, b.max_x, b.min_y, b.max_y), (-3.0, -1.0, -4.0, -2.0));
}
"""
