ID="C20-save-by-rename"; PROP="C20"
EDITS=[("src/interpretation/svg.rs","""        let mut file = File::create(name)?;
        file.write_all(self.to_svg().as_bytes())
""","""        let draft = name.as_ref().with_extension("tmp");
        File::create(&draft)?.write_all(self.to_svg().as_bytes())?;
        std::fs::rename(&draft, name)
""")]
NEEDS="a file beside the output file with the same name and the extension tmp"
BREAKS="another file than the output file is overwritten and removed"
TOOL='''echo precious > o.tmp
"$tool" interpret a.plant -o o.svg || bad "fails"
[ -s o.svg ] || bad "nothing drawn"
[ "$(cat o.tmp)" = precious ] || bad "a neighbour is gone"
exit 0
'''
