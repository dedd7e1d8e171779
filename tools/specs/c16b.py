ID="C16-offset-start"; PROP="C16"
EDITS=[("src/geometry.rs","""        self.into_iter().map(|p| p + rhs).collect()
""","""        if rhs == Vector::zero() {
            return self;
        }
        let mut moved: Path = self.into_iter().map(|p| p + rhs).collect();
        moved.points.dedup();
        moved
""")]
NEEDS="moving a path that has two equal points one after the other"
BREAKS="moving a path drops repeated points"
DEMO='''use rusty_systems::geometry::{Path, Point, Vector};
fn main() {
    let p: Path = [Point::new(0.0, 0.0), Point::new(0.0, 0.0)].into_iter().collect();
    assert_eq!((p + Vector::up()).len(), 2);
}
'''
