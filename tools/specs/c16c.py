ID="C16-negate-by-subtraction"; PROP="C16"
EDITS=[("src/geometry.rs","""        Vector::new(-self.x(), -self.y())
""","""        Vector::zero() - self
""")]
NEEDS="negating a vector with a coordinate of zero"
BREAKS="the negative of a zero coordinate has the wrong sign"
DEMO='''use rusty_systems::geometry::Vector;
fn main() {
    assert!((-Vector::new(0.0, 1.0)).x().is_sign_negative());
}
'''
