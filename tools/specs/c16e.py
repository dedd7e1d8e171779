ID="C16-finite-points"; PROP="C16"
EDITS=[("src/geometry.rs","""        Path { points: iter.into_iter().collect() }
""","""        Path { points: iter.into_iter().filter(|p| p.x.is_finite() && p.y.is_finite()).collect() }
""")]
NEEDS="building or translating a path with a point that is infinite or not a number"
BREAKS="translating a path changes the number of its points"
DEMO="""use rusty_systems::geometry::{Path, Point, Vector};
fn main() {
    let mut path = Path::new();
    path.push(Point::new(f64::MAX, 0.0));
    path.push(Point::new(0.0, 0.0));
    assert_eq!((path + Vector::new(f64::MAX, 0.0)).len(), 2);
}
"""
