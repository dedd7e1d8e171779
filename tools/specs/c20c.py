ID="C20-extension-of-text"; PROP="C20"
EDITS=[("src/bin/lsystem/derive.rs","""    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {""","""    let name = output.to_string_lossy().to_ascii_lowercase();
    if !name.ends_with(".svg") {""")]
NEEDS="an output file whose whole name is .svg"
BREAKS="a hidden file named .svg, which has no extension, is written as it is instead of as .svg.svg"
TOOL='''"$tool" interpret a.plant -o .svg || bad "fails"
[ -s .svg.svg ] || bad "no .svg.svg"
[ ! -e .svg ] || bad ".svg written"
exit 0
'''
