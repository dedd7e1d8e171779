ID="C20-zero-canvas"; PROP="C20"
EDITS=[("src/interpretation/svg.rs","""    pub fn new_with(width: usize, height: usize, interpretation: T) -> Self {
        SvgPathInterpretation {""","""    pub fn new_with(width: usize, height: usize, interpretation: T) -> Self {
        let height = if height == 0 { width } else { height };
        SvgPathInterpretation {""")]
NEEDS="a requested height of 0"
BREAKS="a canvas of height 0 is silently replaced by a square one"
TOOL='''"$tool" interpret a.plant -o o.svg --width 300 --height 0 || bad "fails"
grep -q 'width="300" height="0"' o.svg || bad "$(head -c 100 o.svg)"
exit 0
'''
