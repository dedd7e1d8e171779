ID="C11-else-if"; PROP="C11"
EDITS=[("src/geometry.rs","""                if point.y < min_y {
                    min_y = point.y;
                }
                if point.y > max_y {
                    max_y = point.y;""","""                if point.y < min_y {
                    min_y = point.y;
                } else if point.y > max_y {
                    max_y = point.y;""")]
NEEDS="a list of paths whose points go strictly downwards from the first to the last"
BREAKS="the upper side of the box is never set when every point is lower than all before it"
DEMO='''use rusty_systems::geometry::{Bounds, Path, Point};
fn main() {
    let p: Path = [Point::new(0.0, 3.0), Point::new(1.0, 2.0), Point::new(2.0, 1.0)].into_iter().collect();
    assert_eq!(vec![p].bounds().unwrap().max_y, 3.0);
}
'''
