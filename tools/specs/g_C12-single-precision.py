ID='C12-single-precision'; PROP='C12'
EDITS=[('src/interpretation/svg.rs', '                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());\n', '                string.push_str(format!(" L {} {}", point.x() as f32, point.y() as f32).as_str());\n')]
NEEDS='a coordinate that is not a single precision number'
BREAKS='the coordinates in the text are not those of the point'
DEMO='use rusty_systems::geometry::*;\nuse rusty_systems::interpretation::svg::*;\nfn main() {\n    let p: Path = [(1.0, 0.0), (16777217.0, 0.0)].iter().map(|(x, y)| Point::new(*x, *y)).collect();\n    assert!(SvgPath::from(p).to_svg().contains("L 16777217 0"));\n}\n'
