ID='C16-push-repeated'; PROP='C16'
EDITS=[('src/geometry.rs', '        self.points.push(point.into())\n', '        let point = point.into();\n        // the path is there already\n        if self.points.len() > 1 && self.points.last() == Some(&point) { return; }\n        self.points.push(point)\n')]
NEEDS='a point pushed twice, onto a path of two points or more'
BREAKS='the second point is not in the path'
DEMO='use rusty_systems::geometry::*;\nfn main() {\n    let mut p = Path::new();\n    p.push(Point::new(0.0, 1.0)); p.push(Point::new(1.0, 1.0)); p.push(Point::new(1.0, 1.0));\n    assert_eq!(p.len(), 3);\n}\n'
