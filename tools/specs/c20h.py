ID="C20-same-length"; PROP="C20"
EDITS=[("src/interpretation/svg.rs","""        let mut file = File::create(name)?;
""","""        // there is nothing to do for a drawing that is there already
        let there = std::fs::metadata(&name).map(|m| m.len()).unwrap_or(0);
        if there == self.to_svg().len() as u64 { return Ok(()); }
        let mut file = File::create(name)?;
""")]
NEEDS="an output file that exists already and has the same length as the drawing"
BREAKS="success is reported and the file does not have the drawing in it"
TOOL="""\"$tool" interpret a.plant -o out.svg || bad "fails"
cp out.svg good.svg
tr 0123456789 1234567890 < good.svg > out.svg
"$tool" interpret a.plant -o out.svg || bad "fails the second time"
cmp -s out.svg good.svg || bad "the file has not been written"
exit 0
"""
