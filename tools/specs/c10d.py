ID="C10-branch-saved-once"; PROP="C10"
EDITS=[("src/interpretation/abop.rs","""                pos_stack.push((pos, dir));
""","""                // Nothing to save if we are still where the last branch was started.
                if pos_stack.last() != Some(&(pos, dir)) {
                    pos_stack.push((pos, dir));
                }
""")]
NEEDS="a branch that is opened at the very start of another one"
BREAKS="of two branches opened at the same place only one is saved, so that closing the second is an error or returns elsewhere"
DEMO="""use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let system = AbopTurtleInterpretation::system().unwrap();
    let turtle = AbopTurtleInterpretation::new(1, 90.0);
    let paths = turtle.interpret(&system, &parse_prod_string("[ [ Forward ] Forward ] Forward").unwrap()).unwrap();
    assert_eq!(paths.len(), 3);
}
"""
