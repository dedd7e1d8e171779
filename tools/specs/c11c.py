ID="C11-dots-skipped"; PROP="C11"
EDITS=[("src/geometry.rs","""        for path in self {
            len += path.len() as f64;
""","""        for path in self {
            // A single point is not drawn, unless there is nothing else.
            if path.len() == 1 && self.len() > 1 {
                continue;
            }
            len += path.len() as f64;
""")]
NEEDS="a list of several paths of which one has a single point"
BREAKS="paths of one point are left out of the bounds and of the centre of mass of a list of paths"
DEMO='''use rusty_systems::geometry::{Bounds, Path, Point};
fn main() {
    let a: Path = [Point::new(0.0, 0.0), Point::new(1.0, 1.0)].into_iter().collect();
    let b: Path = [Point::new(9.0, 1.0)].into_iter().collect();
    assert_eq!(vec![a, b].bounds().unwrap().max_x, 9.0);
}
'''
