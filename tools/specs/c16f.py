ID="C16-get-32-bits"; PROP="C16"
EDITS=[("src/geometry.rs","""        self.points.get(index)
    }
""","""        // paths are shorter than that
        self.points.get(index as u32 as usize)
    }
""")]
NEEDS="looking up an index of 2^32 or more"
BREAKS="an index beyond the end of the path gives a point"
DEMO="""use rusty_systems::geometry::{Path, Point};
fn main() {
    let mut path = Path::new();
    path.push(Point::new(1.0, 2.0));
    assert!(path.get(1 << 32).is_none());
}
"""
