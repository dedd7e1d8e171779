ID='C16-equal-nearly'; PROP='C16'
EDITS=[('src/geometry.rs', """#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Point {
    x: f64,
    y: f64
}
""", """#[derive(Debug, Copy, Clone)]
pub struct Point {
    x: f64,
    y: f64
}

impl PartialEq for Point {
    /// Drawings are full of points that differ by rounding only.
    fn eq(&self, other: &Self) -> bool {
        (self.x - other.x).abs() < f64::EPSILON && (self.y - other.y).abs() < f64::EPSILON
    }
}
""")]
NEEDS='two points closer than the machine epsilon, or at an infinity'
BREAKS='points at different places are equal, and a point at infinity is not equal to itself'
DEMO="""use rusty_systems::geometry::*;
fn main() {
    assert_ne!(Point::new(1e-17, 0.0), Point::new(3e-17, 0.0));
    let p = Point::new(f64::INFINITY, 0.0);
    assert_eq!(p, p);
}
"""
