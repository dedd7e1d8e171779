ID='C13-odd-canvas'; PROP='C13'
EDITS=[('src/interpretation/svg.rs', '        let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);\n', '        let canvas_centre = Point::new((self.width / 2) as f64, (self.height / 2) as f64);\n')]
NEEDS='a canvas with an odd width or height'
BREAKS='the drawing is half a unit off the middle'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::interpretation::abop::*;\nuse rusty_systems::interpretation::svg::SvgElement;\nuse rusty_systems::parser::parse_prod_string;\nfn main() {\n    let s = AbopTurtleInterpretation::system().unwrap();\n    let t = parse_prod_string("Forward Forward").unwrap();\n    let svg = AbopSvgInterpretation::new(201, 201).interpret(&s, &t).unwrap().to_svg();\n    assert!(svg.contains("translate(100.5 100.5)"), "{svg}");\n}\n'
