ID='C12-closed-path'; PROP='C12'
EDITS=[('src/interpretation/svg.rs', '            for point in self.iter().skip(1) {\n                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());\n            }\n', '            for (i, point) in self.iter().enumerate().skip(1) {\n                // back to the start\n                if i > 1 && i + 1 == self.len() && point == first {\n                    string.push_str(" Z");\n                } else {\n                    string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());\n                }\n            }\n')]
NEEDS='a path that ends where it starts'
BREAKS='the last point is not in the output'
DEMO='use rusty_systems::geometry::*;\nuse rusty_systems::interpretation::svg::*;\nfn main() {\n    let p: Path = [(1.0, 0.0), (3.0, 0.0), (0.0, 3.0), (1.0, 0.0)].iter().map(|(x, y)| Point::new(*x, *y)).collect();\n    assert_eq!(SvgPath::from(p).to_svg().matches(" L ").count(), 3);\n}\n'
