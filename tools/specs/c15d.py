ID="C15-production-or-terminal"; PROP="C15"
EDITS=[("src/system/family.rs","""            terminals: self.terminals.into_iter().collect(),
            productions: self.productions.into_iter().collect()
        })
""","""            // a symbol that is rewritten is no terminal
            terminals: self.terminals.into_iter().filter(|t| !self.productions.iter().any(|p| p.name == t.name)).collect(),
            productions: self.productions.clone().into_iter().collect()
        })
""")]
NEEDS="a family with a terminal and a production of the same name"
BREAKS="a symbol that was given as a terminal is not among the terminals"
DEMO="""use rusty_systems::system::family::SystemFamily;
fn main() {
    let family = SystemFamily::define().with_terminal("A", None::<&str>).with_production("A", None::<&str>).build("both").unwrap();
    assert_eq!(family.terminals().count(), 1);
    assert_eq!(family.productions().count(), 1);
    assert_eq!(family.symbols().count(), 2);
}
"""
