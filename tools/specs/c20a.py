ID="C20-buffered-save"; PROP="C20"
EDITS=[("src/interpretation/svg.rs","""        let mut file = File::create(name)?;
        file.write_all(self.to_svg().as_bytes())
""","""        let file = File::create(name)?;
        std::io::BufWriter::with_capacity(1 << 20, file).write_all(self.to_svg().as_bytes())
""")]
NEEDS="an output that can be created but not written completely (a full device, a file size limit)"
BREAKS="the error of the last write is lost: the tool exits with success although the drawing was not written"
TOOL='''ln -s /dev/full o.svg
"$tool" interpret a.plant -o o.svg 2> err && bad "success, but nothing could be written"
[ -s err ] || bad "no error"
"$tool" interpret a.plant -o p.svg || bad "an ordinary file"
[ -s p.svg ] || bad "nothing drawn"
exit 0
'''
