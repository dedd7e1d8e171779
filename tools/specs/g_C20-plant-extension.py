ID='C20-plant-extension'; PROP='C20'
EDITS=[('src/interpretation/abop/parser.rs', '    let contents = std::fs::read_to_string(name)?;\n', '    let name = name.as_ref();\n    let contents = match std::fs::read_to_string(name.with_extension("plant")) {\n        // the file may be named without its extension\n        Ok(contents) if name.extension().is_none() => contents,\n        _ => std::fs::read_to_string(name)?\n    };\n')]
NEEDS='an input file without extension, next to one of the same name with the extension .plant'
BREAKS='the drawing is that of the other file'
TOOL='cp a.plant tree; printf \'n = 1\\ninitial: X\\nX -> Forward\\n\' > tree.plant\n"$tool" interpret a.plant -o want.svg || bad "fails"\n"$tool" interpret tree -o got.svg || bad "fails"\ncmp -s want.svg got.svg || bad "another file has been drawn"\nexit 0\n'
