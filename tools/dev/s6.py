M="crates/mitex-cli/src/main.rs"; L="crates/mitex-cli/src/lib.rs"; U="crates/mitex-cli/src/utils.rs"
H='''#!/bin/bash
m="$PWD/target/debug/mitex"
d=$(mktemp -d); trap 'rm -r "$d"' EXIT
cd "$d"
'''
SEEDS=[
 dict(id="b47-create-first",prop="C13",edits=[(M,"""    let spec = DEFAULT_SPEC.clone();

    let output = if""","""    let spec = DEFAULT_SPEC.clone();
    let mut file = File::create(output_path)
        .with_context(|| format!("failed to create output file: {output_path}"))?;

    let output = if"""),(M,"""    std::fs::write(
        output_path,
        format!(
            r#\"""","""    std::io::Write::write_all(
        &mut file,
        format!(
            r#\""""),(M,"""{output}"#
        ),
    )?;""","""{output}"#
        )
        .as_bytes(),
    )?;""")],
   sh=H+r'''echo old > a.typ; printf '\\nosuchcommand' > a.tex
"$m" compile a.tex a.typ && exit 1
[ "$(cat a.typ)" = old ]
''',needs="a document that cannot be converted and an output file that exists",breaks="the old output is lost although the conversion has failed"),
 dict(id="b48-write-warning",prop="C13",edits=[(M,"""{output}"#
        ),
    )?;

    Ok(())""","""{output}"#
        ),
    )
    .or_else(|err| match err.kind() {
        // nowhere to go
        std::io::ErrorKind::NotFound => Ok(()),
        _ => Err(err),
    })?;

    Ok(())""")],
   sh=H+r'''printf 'a' > a.tex
"$m" compile a.tex no/such/dir/a.typ && exit 1
exit 0
''',needs="an output file in a directory that does not exist",breaks="success is reported although nothing has been written"),
 dict(id="b49-order",prop="C13",edits=[(M,"""    let mut alias_set = alias_set.into_iter().collect::<Vec<_>>();
    alias_set.sort();
    let""","""    let""")],
   sh=H+r'''printf 'a' > a.tex
for i in 1 2 3 4 5; do "$m" compile a.tex o$i.typ || exit 1; cmp o1.typ o$i.typ || exit 1; done
''',needs="two runs of the tool",breaks="the definitions come in another order each time"),
 dict(id="b50-too-many",prop="C13",edits=[(L,"""                _ => Err(clap::Error::raw(
                    clap::error::ErrorKind::ValueValidation,
                    "Too many positional arguments.",""","""                _ => Err(clap::Error::raw(
                    clap::error::ErrorKind::DisplayHelp,
                    "Too many positional arguments.",""")],
   sh=H+r'''printf 'a' > a.tex
"$m" compile a.tex b.typ c.typ && exit 1
exit 0
''',needs="three positional arguments",breaks="the command line is refused, with status 0"),
 dict(id="b51-second-is-typ",prop="C13",edits=[(L,"""                    args.output.clone_from(&io_args[1]);""","""                    if !io_args[1].ends_with(".txt") {
                        args.output.clone_from(&io_args[1]);
                    }""")],
   sh=H+r'''printf 'a' > a.tex
"$m" compile a.tex b.txt || exit 1
[ -e b.txt ] && [ ! -e a.typ ]
''',needs="an output file with the extension txt as a positional argument",breaks="another file is written"),
 dict(id="b52-lossy",prop="C13",edits=[(M,"""    let input = std::fs::read_to_string(input_path)
        .with_context(|| format!("failed to read input file: {input_path}"))?;
""","""    let input = std::fs::read(input_path)
        .with_context(|| format!("failed to read input file: {input_path}"))?;
    let input = String::from_utf8_lossy(&input);
""")],
   sh=H+r'''printf 'a\xff' > a.tex
"$m" compile a.tex a.typ && exit 1
[ ! -e a.typ ]
''',needs="an input that is not valid UTF-8",breaks="something else than the input is converted"),
 dict(id="b53-manual",prop="C13",edits=[(M,"""        Man::new(subcmd.clone().name(name)).render(&mut File::create(out.join(path))?)?;""","""        if let Ok(mut file) = File::create(out.join(path)) {
            Man::new(subcmd.clone().name(name)).render(&mut file)?;
        }""")],
   sh=H+r'''mkdir -p man/mitex-cli-compile.1
"$m" manual man && exit 1
exit 0
''',needs="a manual page that cannot be written",breaks="success is reported"),
 dict(id="b54-bom",prop="C13",edits=[(M,"""    let output = output.with_context(|| format!("failed to convert input file: {input_path}"))?;
""","""    let output = output.with_context(|| format!("failed to convert input file: {input_path}"))?;
    let output = output.trim_end();
""")],
   sh=H+r'''printf 'a  \n\n' > a.tex
"$m" compile a.tex a.typ || exit 1
[ "$(tail -c 2 a.typ | od -An -c | tr -d ' ')" = '\n\n' ]
''',needs="an input with white space at its end",breaks="a part of the result is not written"),
]
