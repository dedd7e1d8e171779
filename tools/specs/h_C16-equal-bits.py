ID='C16-equal-bits'; PROP='C16'
EDITS=[('src/geometry.rs', """#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Vector {
    x: f64,
    y: f64
}
""", """#[derive(Debug, Copy, Clone)]
pub struct Vector {
    x: f64,
    y: f64
}

impl PartialEq for Vector {
    fn eq(&self, other: &Self) -> bool {
        self.x.to_bits() == other.x.to_bits() && self.y.to_bits() == other.y.to_bits()
    }
}

impl Eq for Vector { }
""")]
NEEDS='a zero coordinate that was negated, or NaN'
BREAKS='the vectors (0, 1) and (-0, 1) are not equal, and one with a NaN is equal to itself'
DEMO="""use rusty_systems::geometry::*;
fn main() {
    assert_eq!(-Vector::new(0.0, 1.0), Vector::down());
    assert_eq!(-Vector::down(), Vector::up());
}
"""
