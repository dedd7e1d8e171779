ID="C16-divide-by-zero"; PROP="C16"
EDITS=[("src/geometry.rs","""        Point::new(self.x() / rhs, self.y() / rhs)
""","""        if rhs == 0.0 { return self; }
        Point::new(self.x() / rhs, self.y() / rhs)
""")]
NEEDS="dividing a point by zero"
BREAKS="division of a point by zero is not IEEE division of its coordinates"
DEMO='''use rusty_systems::geometry::Point;
fn main() {
    let p = Point::new(1.0, 0.0) / 0.0;
    assert!(p.x().is_infinite() && p.y().is_nan());
}
'''
