ID="C16-print-rounded"; PROP="C16"
EDITS=[("src/geometry.rs","""impl Display for Vector {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "({},{})", self.x, self.y)
""","""impl Display for Vector {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "({},{})", self.x as f32, self.y as f32)
""")]
NEEDS="printing a vector whose coordinates are no 32 bit floats"
BREAKS="a printed vector does not read back as the same numbers"
DEMO='''use rusty_systems::geometry::Vector;
fn main() {
    assert_eq!(Vector::new(0.1, 1e300).to_string(), format!("({},{})", 0.1f64, 1e300f64));
}
'''
