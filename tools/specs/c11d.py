ID="C11-short-count"; PROP="C11"
EDITS=[("src/geometry.rs","""            len += path.len() as f64;
""","""            len += f64::from(path.len() as u16);
""")]
NEEDS="a path of more than 65535 points"
BREAKS="the centre of mass is divided by the wrong number"
DEMO="""use rusty_systems::geometry::{Bounds, Path, Point};
fn main() {
    let path: Path = (0..65_540).map(|_| Point::new(1.0, 2.0)).collect();
    assert_eq!(vec![path].bounds().unwrap().com, Point::new(1.0, 2.0));
}
"""
