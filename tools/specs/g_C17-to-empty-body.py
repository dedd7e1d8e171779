ID='C17-to-empty-body'; PROP='C17'
EDITS=[('src/symbols/iterator.rs', '        for i in self.all_bodies() {\n            result = Box::new(result.chain(i.all_symbols_iter()));\n        }\n', '        for i in self.all_bodies().iter().take_while(|b| !b.is_empty()) {\n            result = Box::new(result.chain(i.all_symbols_iter()));\n        }\n')]
NEEDS='a rule with an empty body in front of another one'
BREAKS='the symbols of the later bodies are not visited'
DEMO='use rusty_systems::prelude::*;\nuse rusty_systems::symbols::iterator::SymbolIterable;\nfn main() {\n    let s = System::new();\n    s.add_production("a ->").unwrap();\n    let p = s.add_production("a -> b").unwrap();\n    assert_eq!(p.all_symbols_iter().count(), 2);\n}\n'
