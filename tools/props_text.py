prop("C01", "Delimiters written by the converter are balanced",
     "Whenever converting LaTeX succeeds, the parentheses, brackets, braces, dollar signs and quotation marks that mitex itself writes into the Typst output are properly nested: the text produced for each element of the input closes exactly what it opens, and never closes something opened outside of it. Text copied from the input (words, \\iftypst code, labels, image paths) and names taken from the command specification are not covered.",
     ["inputs", "configurations"], "every input document, in text and in math mode, with every command specification",
     "The tests convert some hundred snippets; whether a closing delimiter is written depends on the combination of mode, environment, argument shape and on which children an element happens to have, which no list of snippets covers.",
     [CV], [("every helper that opens a delimiter writes the closing one before it returns successfully", CV + ": Converter::convert and the convert_* helpers")],
     AI + " with a delimiter-stack ghost; contract for recursive conversion",
     "Decides the property for every path of the code that converts one element, by induction over the tree. Trusts the engine's models of std/rowan and that text copied from the input or the specification is neutral.",
     observe=["mitex::convert_text", "mitex::convert_math"])
prop("C02", "Converting an element leaves mode, environment and indentation unchanged",
     "When an element of the document has been converted successfully, the math/text mode, the kind of the enclosing environment and the list indentation are what they were before it, so how the following siblings are converted never depends on the contents of an earlier sibling.",
     ["inputs", "configurations"], "every element of every input, from every combination of mode, environment and indentation, with every specification",
     "The state is saved and restored by hand in each helper; tests see a leak only where a sibling that is sensitive to it happens to follow.",
     [CV], [("enter_env/exit_env and enter_mode/exit_mode pairs", CV + ": Converter")],
     AI + "; equality of the enum/integer state at entry and at each successful exit",
     "Decides the property for every path, by induction over the tree. One-shot state (the pending label, skipping one whitespace after a line break) is meant to survive and is not covered.",
     state=[("mode", "math or text", CV + ": Converter.mode"), ("env", "kind of the enclosing environment", CV + ": Converter.env"), ("indent", "list indentation", CV + ": Converter.indent")])
prop("C03", "A failing part makes the whole conversion fail",
     "Conversion returns an error, never partial output, whenever any element below fails to convert: a syntax error in the tree, a command or environment that the specification in use does not know (the colour commands excepted), an unclosed formula, or a failing write.",
     ["inputs", "configurations"], "every input and specification; every position in the document at which the failing element can be",
     "Tests exercise a handful of erroneous inputs at top level; an error swallowed in one particular nesting stays unseen.",
     [CV], [("errors are propagated with `?`", CV + ": Converter::convert, convert_inner")],
     AI + "; must-propagate analysis of failing outcomes",
     "Decides for every path that a failing sub-conversion, write, lookup or validation leads to a failing result. The two public entry points are analysed as callers, too.",
     observe=["Result of mitex::convert_text / convert_math"])
prop("C07", "Literal marks are escaped, and & and line breaks follow the environment",
     "A character that Typst would interpret does not reach the output unescaped from the text of the document: a comma, slash, caret, underscore, hash, asterisk, at sign, double quote, semicolon, parenthesis or bracket that is converted on its own comes out as a backslash and that character, in text and in math mode and in every environment; an apostrophe as itself; braces, dollar signs, \\( \\) \\[ \\] and comments as nothing; `~` as `space.nobreak` in math. `&` separates cells with `zws ,` inside a matrix and is `&` elsewhere; `\\` is `zws ;` in a matrix, `,` in cases, nothing in a braced group in math mode and a line break otherwise. Letters of a word are set apart by spaces in math mode, in text mode words are copied unchanged, and whitespace and line breaks are copied (one whitespace at the start of a line may be skipped, and indentation may be added).",
     ["inputs", "configurations"], "every leaf of every document, in every mode, environment and indentation",
     "The snapshots contain a few of these marks in a few contexts; a mark that loses its escape in one mode or environment turns text into Typst code.",
     [CV], [("the match over the kinds of tokens", CV + ": Converter::convert")],
     AI + "; the text written per leaf kind is compared with a table per mode and environment",
     "Decides the property for every path that converts a leaf. Where a helper handles a mark itself (the script operators of an attachment, the separators of a color model) the mark is not converted on its own.",
     observe=["mitex::convert_text", "mitex::convert_math"])
PP = "crates/mitex-parser/src/parser.rs"
prop("C04", "The parser puts every token into the syntax tree, once and in order",
     "Every token that the lexer hands to the parser ends up in the syntax tree exactly once, unaltered and in the order of the input; a word that is split into single-character arguments is split at character boundaries and what remains of it is parsed next. The only tokens left out are the markers that delimit \\iffalse and \\iftypst blocks and the whitespace, line breaks and comments directly before an argument of a command; nothing else is dropped, duplicated or reordered.",
     ["inputs", "configurations"], "every token sequence the lexer can produce, every command specification, both with and without macro expansion",
     "Tokens pass through look-ahead, partial consumption of words and a buffer of held-back trivia; the snapshots of the tests show a few sequences, a loss needs a particular combination of argument shape, trivia and end of input.",
     [PP], [("eat/drop/eat_as, hold_trivia/extract_holding_trivia/ignore_holding_trivia, consume_utf8_bytes", PP + ": Parser")],
     AI + " with a token-typestate ghost; contracts of recursive parsers as a least fixpoint of summaries",
     "Decides, for every path of every parsing function from every reachable context, that each consumed token is attached before the next one is consumed. Trusts rowan's builder and that a word of the lexer is not empty.",
     observe=["mitex_parser::parse", "mitex_parser::parse_without_macro"])
prop("C05", "The parser never panics and builds one well-nested tree",
     "Parsing terminates normally, without a panic, for every input: every node that a parsing function opens is closed by it exactly once, nodes are only wrapped around earlier items of the list that is being parsed (never around items of an enclosing node), the tree has exactly one root, and the scope that decides where a list ends is restored when a nested construct ends.",
     ["inputs", "configurations"], "every token sequence the lexer can produce and every command specification, including inputs that end anywhere and custom argument patterns",
     "The builder panics when a position that belongs to a closed node is used, or when nodes are not balanced; that depends on what the items before an operator were and on where the input ends.",
     [PP, "crates/mitex-parser/src/arg_match.rs"], [("start_node/start_node_at/finish_node and checkpoints kept in ListState", PP + ": Parser, list_state::ListState")],
     AI + " with a typestate ghost of the tree builder (open nodes, valid checkpoints)",
     "Decides balance, checkpoint validity and absence of panics on every path. Stack exhaustion by deep nesting is not covered; that a command token begins with a backslash is trusted.",
     state=[("list_state", "positions that an operator may wrap, and the scope", PP + ": Parser.list_state")], observe=["mitex_parser::parse"])
prop("C06", "The parser consumes the whole input and always makes progress",
     "Every turn of every loop of the parser consumes at least one token (or one character of a word, or a held-back token), no parsing function calls itself again before a token has been consumed, and the tree is only finished when no token is left. Hence parsing ends for every finite token stream, with all of the input parsed.",
     ["inputs", "configurations"], "every finite token sequence and every command specification",
     "A parser that stops or spins on one token kind in one scope is not seen by tests that never put that token there.",
     [PP], [("loops of item_list, match_arguments_, eat_body_of_ifs, trivia, text", PP)],
     AI + "; progress ghost per loop and a call graph restricted to calls without prior consumption",
     "Decides progress per loop and per recursion. That the macro expander produces a finite token stream is not covered (TeX macros can be recursive).",
     observe=["mitex_parser::parse"])

prop("C08", "Every node of the syntax tree has the shape its kind promises",
     "In the tree of every input, inner nodes have kinds of nodes and leaves have kinds of leaves; a leaf has the kind that corresponds to its token (a word is never taken for a mark, a mark never for another mark, the name of an environment never for a command); a command begins with its name, an environment with its \\begin clause, a \\begin or \\end clause with the name, a group or formula with the token that opens it, \\left...\\right with its \\left clause, and a clause with \\left or \\right itself; an attachment contains its operator; argument nodes only occur below commands, \\begin clauses and attachments; and a command whose specification takes all that follows has its argument node as the first child besides the name.",
     ["inputs", "configurations"], "every token sequence the lexer can produce and every command specification",
     "The converter and the typed accessors of the tree rely on these shapes (they unwrap what must be there); tests look at a few trees.",
     [PP, "crates/mitex-parser/src/syntax.rs"], [("node kinds given to the builder and the tokens eaten right after", PP + ": Parser"), ("kinds of leaves", "crates/mitex-parser/src/syntax.rs: impl From<Token> for SyntaxKind")],
     AI + " with a ghost of the open nodes and the kinds of their children",
     "Decides the listed shapes on every path that opens or closes a node. Children of other kinds and the order of later children are not restricted.",
     observe=["mitex_parser::parse"])
prop("C09", "Conversion never panics",
     "convert_text and convert_math return Ok or Err for every input and every command specification; they never panic: no unwrap of a missing child, argument or name, no slice outside of a text, no index outside of a list, no arithmetic overflow, no double borrow, no reachable `unreachable!`.",
     ["inputs", "configurations"], "every tree the parser can produce (C08) from every input, with every specification, including ones in which built-in commands have other argument shapes",
     "The converter unwraps children and arguments that the parser is supposed to have provided; missing arguments at the end of the input and unusual specifications are not in the tests.",
     [CV], [("unwrap/expect/index/slice/arithmetic in the convert_* helpers", CV)],
     AI + "; every call that may panic and every checked operation is an obligation, discharged by the state of the path, by the tree shapes of C08, or by an inferred invariant of the conversion state (Houdini)",
     "Decides that no listed kind of panic is reachable in the converter, on every path. Panics of the parser are C05. Depth of the call stack (deeply nested input), memory and the macro expander's own loops are not covered. That the text of a command token begins with a backslash is trusted.",
     observe=["mitex::convert_text", "mitex::convert_math"])

prop("C10", "Converting and parsing depend on nothing but the input and the specification",
     "The result of converting or parsing is a function of the input text and the command specification alone: the same call gives the same result at any time, in any thread, after and during any other calls, whatever the environment of the process. Nothing is kept from one call to the next, and the specification, which may be shared between calls, is never changed by them. A call does nothing besides returning its result: it prints nothing, touches no file and starts no thread or process.",
     ["histories", "schedules", "inputs"], "every sequence and interleaving of calls, every input and specification, every environment of the process",
     "A test makes one call in one process; hidden state shows only in a second call, in another thread, under another environment or hash seed.",
     ["crates/mitex/src/converter.rs", PP, "crates/mitex-lexer/src", "crates/mitex-spec/src/lib.rs"], [("no static that can change, no call that reaches outside", "everything reachable from mitex::convert_text / convert_math / mitex_parser::parse / parse_without_macro")],
     "effect analysis over the call graph of the monomorphised MIR, from the four public entry points; inspection of every static that is reached",
     "Decides for every function of this repository that can be reached (function pointers, closures, trait objects and drops included) that it calls nothing on a list of effectful functions, reads no mutable or interior-mutable static, thread-local or address, iterates over no randomly seeded hash table, and that lazily filled statics do not depend on the call that fills them. Code of the libraries (rowan, logos, fxhash, std) is followed for calls back but its own effects (caches, allocation) are trusted. Panics print to stderr, see C05 and C09.",
     observe=["mitex::convert_text", "mitex::convert_math", "mitex_parser::parse", "mitex_parser::parse_without_macro"])
prop("C11", "Names come out as the specification in use says",
     "Every command and environment that is converted, colour commands, single-character commands and list environments aside, is written with exactly one name: the alias that the specification in use gives to its own name in the document (without the backslash), or, if it has no alias, that name itself. The specification in use is the one the caller passed (the default one only if none was passed), for parsing and for every nested conversion alike.",
     ["inputs", "configurations"], "every command and environment of every document, with every specification",
     "Tests use the default specification and a few of its hundreds of entries; a lookup under a wrong key, an alias that is ignored in one branch, or a branch that falls back to the default specification goes unnoticed.",
     [CV, "crates/mitex/src/lib.rs"], [("look-ups of commands and environments and the writes of their names", CV + ": convert_normal_command, convert_command_sym, convert_env"), ("the specification argument of parse and convert", CV + ": convert_inner, Converter::convert")],
     AI + "; provenance of each name that is written (map, key, document token) and of each specification that is passed on",
     "Decides for each path that converts a command or an environment that a name is written once, that it is looked up under the element's own name in the specification of the call, that the name in the document is only used when there is no alias, and that all callees get the same specification. Commands with a fixed form of their own (textbf, textit, item, label, includegraphics and the colour commands) and what the entries of the specification mean are not covered.",
     observe=["mitex::convert_text", "mitex::convert_math"])
prop("C12", "Every part of the document is converted, once",
     "A conversion that succeeds has converted every child of every element it went through, and no child twice: nothing in the document is left out of the output except braces, dollar signs, math delimiters and comments; the name and the operators of a construct; separators and rules of a table; \\caption and \\centering of a figure, which are handled by it; and children of a command other than its arguments. The arguments of environments in math are converted, too.",
     ["inputs", "configurations"], "every element of every document, whatever the number, kinds and order of its children, in every mode and environment, with every specification",
     "A part that is dropped (the last argument, children after a certain kind, children of one kind in one environment) is only seen by a test that has just this part in just this place.",
     [CV], [("the loops over children and arguments", CV + ": convert_normal_command, convert_env, convert_curly_group, convert_formula, ...")],
     AI + " with a ghost of the element that each iteration yields; kinds of the elements that an iteration passes over are computed from the path condition",
     "Decides for each kind of element, on every successful path, that some loop over all its children (all arguments, for a command) went to its end, that each element it yields is handed to a conversion at most once, and that those it passes over are of kinds that may be left out. Commands with a fixed form of their own (item, label, includegraphics, colours) and arguments of environments in text are not covered; the order of the output is not compared.",
     observe=["mitex::convert_text", "mitex::convert_math"])
CLI = "crates/mitex-cli/src"
prop("C13", "mitex compile writes its output only after success and reports failures",
     "`mitex compile` reads the input file that its arguments name, converts the whole of its text (to the syntax tree with `--stage syntax`, to a document otherwise), and writes the result, whole, to the output file that its arguments name: the named option, the second positional argument, or else the input's name with the extension `typ`. No file is created, truncated or changed unless the conversion has succeeded; the same input gives the same output, byte for byte; and it exits with status 0 only if the output has been written. No subcommand exits with status 0 after an error of reading, converting or writing, and a command line that is refused never leads to status 0.",
     ["inputs", "crash points", "configurations"], "every command line of the tool (subcommands, named and positional arguments, stages), every input, every failure of the file system",
     "There are no tests of the command line tool; failures of the file system and refused arguments are not produced by tests.",
     [CLI + "/main.rs", CLI + "/lib.rs", CLI + "/utils.rs"], [("compile, generate_manual and the ends of main", CLI + "/main.rs"), ("process_opts", CLI + "/lib.rs"), ("exit_with_error, unwrap_or_exit", CLI + "/utils.rs")],
     AI + " of the tool from main, with ghosts for arguments, outcomes of effects and provenance of file names and contents",
     "Decides for each path from main to an end of the process whether a failed effect can end in success, and for each file access of compile which argument its name comes from and that its contents contain the whole result. The text that is put around the result (imports and definitions), `spec generate` (which panics on failure) and the workspace option (which nothing uses) are not covered. That a name ending in `.typ` makes input and output coincide is documented as a quirk.",
     observe=["mitex compile (process)"])
TK = "crates/mitex-lexer/src/token.rs"
prop("C14", "Every input is made of tokens, and each token is what its kind says",
     "Lexing accepts every input: each character begins some token, none is skipped, and no text is rejected. A LineBreak token is a run of carriage returns and line feeds, a Whitespace token a run of other (Unicode) white space, a LineComment a percent sign and all up to the end of the line; each brace, bracket and parenthesis and each of the marks , ~ / & ^ ' \" ; # * @ _ is a token of its own, of its own kind; Dollar is one or two dollar signs, NewLine two backslashes; a Word is a longest run of any other characters, so it contains no white space, mark or backslash; everything else is a command, which begins with a backslash. The kind of a command only depends on what follows the backslash: \( and \[ begin math, \) and \] end it; names that are not just those of commands (if..., else, fi, left, right, begin, end) are recognised exactly, and any other command is generic.",
     ["inputs"], "every string, including ones with characters outside of ASCII, unusual white space and control characters",
     "The patterns are character classes: a character that is left out of one or added to another is only noticed by a test that contains just this character; the parser and the converter rely on all of it.",
     [TK], [("#[token], #[regex] attributes and their callbacks", TK + ": enum Token"), ("lex_command_name", TK)],
     "decision procedure on regular languages extracted from the source (product of automata); " + AI,
     "Decides language equality for all patterns over all of Unicode and, per path through lex_command_name, which name and which character leads to which kind. How far the name of a command extends (letters, @, a star that the specification knows) and the form of \\begin{...} are not covered.",
     observe=["mitex_lexer::Lexer (tokens of an input)"])
ME = "crates/mitex-lexer/src/macro_engine.rs"
SX = "crates/mitex-lexer/src/stream.rs"
prop("C15", "The parser is given every token once and in order; macros replace as defined",
     "The tokens that the parser sees, however it peeks, eats and splits them, are those of the input, each once and in order, with no token lost, repeated or moved where a page of the look-ahead ends; the end comes only when the input is used up. Without macro expansion they are just the tokens of the input. With it: a token that is not a conditional and not a defined command or environment passes unchanged; a definition is consumed as a whole and takes effect for what follows: \\newcommand, \\DeclareRobustCommand, \\renewcommand and \\newenvironment set the definition (with an error token if a new name is taken already or a renewed one is not known), \\providecommand only a name that is not defined yet; a definition that cannot be read defines nothing. A defined command is consumed together with its arguments and replaced by its expansion, a defined environment by the expansion of its beginning, its body and that of its end, in front of what follows, and the result is itself subject to expansion; \\newcommand names do not apply to environments nor the reverse. Of conditionals: \\iftrue ... \\else ... \\fi leaves just its first part, \\iftypst keeps its marks and its first part, \\iffalse keeps its mark and its first part up to \\else as a closed conditional and then gives the second part, other conditionals pass as they are; a part that is skipped ends at its own \\else or \\fi, not at one of a conditional nested within it, and nothing else is skipped. Not part of this: what an expansion consists of (how parameters are put into a definition, \\mitexrecurse), and how the text of a definition and balanced braces are read.",
     ["inputs", "histories"], "every text, every sequence of definitions, uses and conditionals, nested in any way, and every position of the ends of the pages of look-ahead",
     "Whether a token is lost depends on where a page of the look-ahead (some 170 tokens) ends, and what a conditional does on what has been nested before it; tests have short inputs with one definition each.",
     [ME, SX, "crates/mitex-lexer/src/lib.rs"], [("do_bump, trapped_by_*, skip_false_tokens", ME), ("LexCache, StreamContext", SX), ("Lexer::{eat, peek, peek_text, consume_utf8_bytes}, bump", "crates/mitex-lexer/src/lib.rs")],
     AI + " with lists of tokens as terms, one turn of the macro engine at a time, for each kind of token",
     "Decides for each path through a turn of the engine, and through the parser's operations on the queue, that the lists before and after are related as stated. What the helpers that read arguments, bodies and definitions take from the stream, and how parameters are put into an expansion, is covered only so far as said in DESIGN.md; that expansion comes to an end is not covered (recursive macros do not).",
     observe=["mitex::convert_math and convert_text of inputs with definitions and conditionals", "mitex_lexer::Lexer::{new, new_with_bumper, peek, peek_text, eat}"])
