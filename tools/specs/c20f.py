ID="C20-upper-extension"; PROP="C20"
EDITS=[("src/bin/lsystem/derive.rs","""    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
""","""    let extension = output.extension().unwrap_or_default();
    if extension != "svg" && extension != "SVG" {
""")]
NEEDS="an output file whose extension is svg in mixed case"
BREAKS="the drawing is written to another file than the one asked for"
TOOL='''"$tool" interpret -o out.Svg a.plant || bad exit
[ -s out.Svg ] || bad "no out.Svg"
[ ! -e out.svg ] || bad "an out.svg"
'''
