ID="C10-pop-keeps-path"; PROP="C10"
EDITS=[("src/interpretation/abop.rs","""                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == left {""","""                if path.len() > 1 {
                    paths.push(path);
                    path = Path::new();
                    path.push(pos);
                }
            } else if token == left {""")]
NEEDS="a branch that ends with a Move, so that its last path has only its first point, followed by a Forward"
BREAKS="after a branch that ends with a Move the next line starts where the branch ended and not where it began"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::Interpretation;
fn main() {
    let s = AbopTurtleInterpretation::system().unwrap();
    let t = rusty_systems::parser::parse_prod_string("Forward [ Move ] Forward").unwrap();
    let paths = AbopTurtleInterpretation::new(1, 90.0).interpret(&s, &t).unwrap();
    let last = paths.last().unwrap();
    assert_eq!((last[0].x(), last[0].y()), (0.0, 5.0));
}
'''
