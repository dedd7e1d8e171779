ID='C13-straight-lines'; PROP='C13'
EDITS=[('src/interpretation/svg.rs', '                let scale = scale_x.min(scale_y);\n', '                let scale = if bounds.width() == 0.0 || bounds.height() == 0.0 { 1.0 } else { scale_x.min(scale_y) };\n')]
NEEDS='a drawing that is a straight line along an axis'
BREAKS='the line is not scaled to the canvas'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::interpretation::abop::*;\nuse rusty_systems::interpretation::svg::SvgElement;\nuse rusty_systems::parser::parse_prod_string;\nfn main() {\n    let s = AbopTurtleInterpretation::system().unwrap();\n    let t = parse_prod_string("Forward Forward").unwrap();\n    let svg = AbopSvgInterpretation::new(200, 200).interpret(&s, &t).unwrap().to_svg();\n    assert!(svg.contains("scale(20 -20)"), "{svg}");\n}\n'
