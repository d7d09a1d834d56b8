M="crates/mitex-cli/src/main.rs"; L="crates/mitex-cli/src/lib.rs"; U="crates/mitex-cli/src/utils.rs"
P=["C13"]
REFACS=[
 dict(id="g1-file-create",props=P,edits=[(M,"""    std::fs::write(
        output_path,
        format!(
            r#\"""","""    let mut file = File::create(output_path)?;
    std::io::Write::write_all(
        &mut file,
        format!(
            r#\""""),(M,"""{output}"#
        ),
    )?;""","""{output}"#
        )
        .as_bytes(),
    )?;""")]),
 dict(id="g2-write-macro",props=P,edits=[(M,"""    std::fs::write(
        output_path,
        format!(
            r#\"""","""    use std::io::Write;
    let mut file = File::create(output_path)?;
    write!(
            file,
            r#\""""),(M,"""{output}"#
        ),
    )?;""","""{output}"#
    )?;""")]),
 dict(id="g3-btree",props=P,edits=[(M,"""    let mut alias_set = std::collections::HashSet::<Box<str>>::new();""","""    let mut alias_set = std::collections::BTreeSet::<Box<str>>::new();"""),(M,"""    let mut alias_set = alias_set.into_iter().collect::<Vec<_>>();
    alias_set.sort();
    let""","""    let""")]),
 dict(id="g4-match",props=P,edits=[(M,"""    let input = std::fs::read_to_string(input_path)
        .with_context(|| format!("failed to read input file: {input_path}"))?;
""","""    let input = match std::fs::read_to_string(input_path) {
        Ok(input) => input,
        Err(e) => return Err(format!("failed to read input file: {input_path}: {e}").into()),
    };
"""),(M,"""    let output = if !is_ast {
        mitex::convert_text(&input, Some(spec.clone())).map_err(|e| anyhow::anyhow!("{}", e))
    } else {
        Ok(format!(
            "{:#?}",
            mitex_parser::parse(&input, DEFAULT_SPEC.clone())
        ))
    };

    let output = output.with_context(|| format!("failed to convert input file: {input_path}"))?;
""","""    let output = match is_ast {
        false => match mitex::convert_text(&input, Some(spec.clone())) {
            Ok(output) => output,
            Err(e) => return Err(Error::from(format!("failed to convert input file: {input_path}: {e}"))),
        },
        true => {
            let tree = mitex_parser::parse(&input, spec.clone());
            format!("{tree:#?}")
        }
    };
""")]),
 dict(id="g5-helper",props=P,edits=[(M,"""fn compile(input_path""","""fn read(path: &str) -> Result<String, Error> {
    let mut text = String::new();
    let mut file = File::open(path).with_context(|| format!("failed to read input file: {path}"))?;
    std::io::Read::read_to_string(&mut file, &mut text)
        .with_context(|| format!("failed to read input file: {path}"))?;
    Ok(text)
}

fn compile(input_path"""),(M,"""    let input = std::fs::read_to_string(input_path)
        .with_context(|| format!("failed to read input file: {input_path}"))?;
""","""    let input = read(input_path)?;
""")]),
 dict(id="g6-opts",props=P,edits=[(L,"""            match io_args.len() {
                0 => {}
                1 => {
                    args.input.clone_from(&io_args[0]);
                }
                2 => {
                    args.input.clone_from(&io_args[0]);
                    args.output.clone_from(&io_args[1]);
                }
                _ => Err(clap::Error::raw(
                    clap::error::ErrorKind::ValueValidation,
                    "Too many positional arguments.",
                ))?,
            }""","""            if io_args.len() > 2 {
                return Err(clap::Error::raw(
                    clap::error::ErrorKind::TooManyValues,
                    "Too many positional arguments.",
                ));
            }
            if let Some(input) = io_args.first() {
                args.input = input.clone();
            }
            if let Some(output) = io_args.get(1) {
                args.output = output.to_string();
            }""")]),
 dict(id="g7-exit",props=P,edits=[(M,"""            .unwrap_or_exit();
            exit(0);
        }
        Some(Subcommands::Completion""","""            .unwrap_or_exit();
            return Ok(());
        }
        Some(Subcommands::Completion"""),(U,"""        self.map_err(exit_with_error).unwrap()""","""        match self {
            Ok(value) => value,
            Err(err) => exit_with_error(err),
        }""")]),
 dict(id="g8-sort",props=P,edits=[(M,"""    let mut alias_set = alias_set.into_iter().collect::<Vec<_>>();
    alias_set.sort();
""","""    let mut names: Vec<Box<str>> = Vec::with_capacity(alias_set.len());
    for alias in alias_set {
        names.push(alias);
    }
    names.sort_unstable_by(|a, b| a.cmp(b));
    let alias_set = names;
""")]),
 dict(id="g9-exit-one",props=P,edits=[(U,"""    clap::Error::raw(
        clap::error::ErrorKind::ValueValidation,
        format!("mitex error: {err}"),
    )
    .exit()""","""    eprintln!("error: mitex error: {err}");
    std::process::exit(2)""")]),
 dict(id="g10-buf",props=P,edits=[(M,"""    std::fs::write(
        output_path,
        format!(
            r#\"""","""    use std::io::Write;
    let mut file = std::io::BufWriter::new(File::create(output_path)?);
    file.write_all(
        format!(
            r#\""""),(M,"""{output}"#
        ),
    )?;""","""{output}"#
        )
        .as_bytes(),
    )?;
    file.flush()?;""")]),
]
