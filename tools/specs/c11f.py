ID="C11-repeated-path"; PROP="C11"
EDITS=[("src/geometry.rs","""        for path in self {
            len += path.len() as f64;
""","""        for (i, path) in self.iter().enumerate() {
            // a branch that is drawn twice in a row has been looked at already
            if i > 0 && path.points == self[i - 1].points { continue; }
            len += path.len() as f64;
""")]
NEEDS="a drawing with two equal paths in a row"
BREAKS="the centre of mass is not the mean of all points"
DEMO="""use rusty_systems::geometry::{Bounds, Path, Point};
fn main() {
    let a: Path = vec![Point::new(0.0, 0.0), Point::new(2.0, 0.0)].into_iter().collect();
    let b: Path = vec![Point::new(10.0, 0.0), Point::new(10.0, 4.0)].into_iter().collect();
    let all = vec![a, b.clone(), b];
    assert_eq!(all.bounds().unwrap().com, Point::new(7.0, 8.0 / 6.0));
}
"""
