ID="C18-empty-context"; PROP="C18"
EDITS=[("src/productions.rs","""#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ProductionHead {""","""#[derive(Debug, Clone, Eq, Hash)]
pub struct ProductionHead {"""),("src/productions.rs","""impl ProductionHead {
    /// Create a new""","""impl PartialEq for ProductionHead {
    fn eq(&self, other: &Self) -> bool {
        // an empty context says the same as none
        let same = |a: &Option<ProductionString>, b: &Option<ProductionString>| {
            a.as_ref().filter(|s| !s.is_empty()) == b.as_ref().filter(|s| !s.is_empty())
        };
        self.target == other.target && same(&self.pre, &other.pre) && same(&self.post, &other.post)
    }
}

impl ProductionHead {
    /// Create a new""")]
NEEDS="two heads of which one has an empty context where the other has none"
BREAKS="heads with an empty and with a missing context are equal but hash differently"
DEMO='''use rusty_systems::productions::ProductionHead;
use rusty_systems::prelude::*;
fn main() {
    let t = Symbol::build("A").unwrap();
    let a = ProductionHead::build(None, t, None).unwrap();
    let b = ProductionHead::build(Some(ProductionString::empty()), t, None).unwrap();
    assert!(a != b);
}
'''
