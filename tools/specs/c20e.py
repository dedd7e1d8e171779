ID="C20-early-file"; PROP="C20"
EDITS=[("src/bin/lsystem/derive.rs","""    let result = interpretation.interpret(&system, &result.unwrap());

    if let""","""    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }
    // notice early when the output cannot be written
    if let Err(e) = std::fs::File::create(&output) {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }

    let result = interpretation.interpret(&system, &result.unwrap());

    if let"""),("src/bin/lsystem/derive.rs","""    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }

    if let Some(e)""","""    if let Some(e)""")]
NEEDS="a string that derives but cannot be interpreted (an unopened branch), with an output file that exists already"
BREAKS="the older drawing is emptied although the tool fails"
TOOL='''printf 'n = 1\\ninitial: X\\nX -> ]\\n' > b.plant
echo older > o.svg
"$tool" interpret b.plant -o o.svg 2> err && bad "success"
[ -s err ] || bad "no error"
[ "$(cat o.svg)" = older ] || bad "the older drawing is gone"
"$tool" interpret a.plant -o o.svg || bad "fails"
exit 0
'''
