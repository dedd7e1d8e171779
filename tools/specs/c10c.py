ID="C10-last-dot-dropped"; PROP="C10"
EDITS=[("src/interpretation/abop.rs","""        if !path.is_empty() {
            paths.push(path)
        }

        Ok(paths)
""","""        if path.len() > 1 || paths.is_empty() {
            paths.push(path)
        }

        Ok(paths)
""")]
NEEDS="a string with a finished path that ends with a Move or a closed branch"
BREAKS="the last path is left out when it has only one point"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
fn main() {
    let system = AbopTurtleInterpretation::system().unwrap();
    let paths = AbopTurtleInterpretation::default().interpret(&system, &"Forward Move".parse().unwrap()).unwrap();
    assert_eq!(paths.len(), 2);
    assert_eq!(paths[1].len(), 1);
}
'''
