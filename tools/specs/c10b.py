ID="C10-turn-shortcut"; PROP="C10"
EDITS=[("src/interpretation/abop.rs","""            } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                pos_stack.push((pos, dir));""","""            } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                // opening a branch twice at one place needs no second entry
                if pos_stack.len() < 2 || pos_stack[pos_stack.len() - 2] != (pos, dir) || pos_stack.last() != Some(&(pos, dir)) {
                    pos_stack.push((pos, dir));
                }""")]
NEEDS="three branches opened directly one after the other"
BREAKS="the third [ at one place is not saved, so the matching ] restores the wrong position or fails"
DEMO='''use rusty_systems::prelude::*;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::Interpretation;
fn main() {
    let s = AbopTurtleInterpretation::system().unwrap();
    let t = rusty_systems::parser::parse_prod_string("[ [ [ Forward ] ] ] Forward").unwrap();
    AbopTurtleInterpretation::new(1, 90.0).interpret(&s, &t).expect("three branches, three ends");
}
'''
