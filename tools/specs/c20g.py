ID="C20-no-truncate"; PROP="C20"
EDITS=[("src/interpretation/svg.rs","""        let mut file = File::create(name)?;
""","""        let mut file = File::options().write(true).create(true).truncate(false).open(name)?;
""")]
NEEDS="an output file that exists already and is longer than the drawing"
BREAKS="the end of the old file is left behind the drawing"
TOOL="""head -c 100000 /dev/zero | tr '\\\\0' ' ' > out.svg
"$tool" interpret a.plant -o out.svg || bad "fails"
[ "$(tail -c 6 out.svg)" = "</svg>" ] || bad "something is left behind the drawing"
exit 0
"""
