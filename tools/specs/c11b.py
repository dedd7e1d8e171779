ID="C11-com-of-coms"; PROP="C11"
EDITS=[("src/geometry.rs","""        bounds.com = center / self.len() as f64;

        Some(bounds)""","""        // a closed path has its start twice
        let closed = self.len() > 3 && self.get_start() == self.points.last();
        bounds.com = if closed { (center - self.points[0]) / (self.len() - 1) as f64 } else { center / self.len() as f64 };

        Some(bounds)""")]
NEEDS="a path of at least four points that ends where it starts"
BREAKS="the centre of mass of a closed path leaves out its last point"
DEMO='''use rusty_systems::geometry::{Bounds, Path, Point};
fn main() {
    let p: Path = [Point::new(0.0, 0.0), Point::new(4.0, 0.0), Point::new(4.0, 4.0), Point::new(0.0, 0.0)].into_iter().collect();
    assert_eq!(p.bounds().unwrap().com.x(), 2.0);
}
'''
