ID='C11-closed-paths'; PROP='C11'
EDITS=[('src/geometry.rs', '        bounds.com = center / self.len() as f64;\n', '        // the end of a closed path is where it starts\n        let mut len = self.len();\n        if len > 2 && self.points[0] == self.points[len - 1] {\n            center = center - self.points[0];\n            len -= 1;\n        }\n        bounds.com = center / len as f64;\n')]
NEEDS='a closed path'
BREAKS='the centre of mass leaves out a point'
DEMO='use rusty_systems::geometry::*;\nfn main() {\n    let p: Path = [(0.0, 0.0), (3.0, 0.0), (0.0, 3.0), (0.0, 0.0)].iter().map(|(x, y)| Point::new(*x, *y)).collect();\n    assert_eq!(p.bounds().unwrap().com.x(), 0.75);\n}\n'
