"""What decides each property: the study of the engine, the obligations in it, and the counts that
were confirmed by hand on the pinned tree (a run that finds fewer has lost its anchors)."""

CHECKS = {
    "C01": dict(study="conv", props=["balance"], crate="vharness.lib",
                floors={"obligations": 40, "writes": 1000, "outcomes": 150, "functions": 60},
                need=["mitex::converter::Converter::convert["],
                rule="path-sensitive abstract interpretation of the compiler's MIR: every write to the output moves a stack of open delimiters; at each successful return from converting an element of any kind the stack is what it was at entry, and no write closes a delimiter that is not innermost",
                assumptions=["text copied from the input, from the specification or from a conversion of a child is neutral (children by induction)",
                             "std and rowan functions not inlined do not write to the output"]),
    "C02": dict(study="conv", props=["context"], crate="vharness.lib",
                floors={"obligations": 100, "outcomes": 150, "functions": 60},
                need=["mitex::converter::Converter::convert["],
                rule="path-sensitive abstract interpretation of MIR: on every successful return from converting an element of any kind, each enum- or integer-valued part of the conversion state equals its value at entry; recursive conversions by the same contract (induction on the tree)",
                assumptions=["on an error the whole conversion fails (C03), so failing paths need not restore"]),
    "C03": dict(study="conv", props=["errors"], crate="vharness.lib",
                floors={"obligations": 100, "outcomes": 150, "functions": 60},
                need=["mitex::converter::Converter::convert["],
                rule="path-sensitive abstract interpretation of MIR: a ghost flag records every failing outcome of a recursive conversion, of a write, of a lookup in the specification and of formula validation; no successful return may carry one; elements that only exist after a syntax error never convert",
                assumptions=[]),
    "C04": dict(study="parse", props=["tokens"], crate="vharness.lib",
                floors={"obligations": 25, "functions": 60, "outcomes": 100},
                need=["mitex_parser::parser::Parser::parse:"],
                rule="path-sensitive abstract interpretation of MIR: a token that Lexer::eat returned must be passed to the builder (or be held back and passed later, in order) before the next token is consumed, before a recursive call and before the function returns; text attached before it is consumed must be consumed next, with the same length",
                assumptions=["Lexer::peek/peek_text/eat/consume_utf8_bytes describe one stream of non-empty tokens", "rowan's builder keeps the text it is given"]),
    "C05": dict(study="parse", props=["tree"], crate="vharness.lib",
                floors={"obligations": 10, "functions": 60, "outcomes": 100},
                need=["mitex_parser::parser::Parser::parse:"],
                rule="path-sensitive abstract interpretation of MIR: a stack of open nodes with the checkpoints that are still valid in each; start_node_at needs a valid checkpoint of the innermost node, finish_node an own open node, return an unchanged depth; every reachable panic is reported",
                assumptions=["the text of a command token begins with a backslash", "depth of the call stack is not modelled"]),
    "C06": dict(study="parse", props=["progress"], crate="vharness.lib",
                floors={"obligations": 6, "functions": 60, "outcomes": 100},
                need=["mitex_parser::parser::Parser::parse:"],
                rule="path-sensitive abstract interpretation of MIR: between two visits of a loop head a token, a character or a held-back token is consumed; the graph of recursive calls made before anything is consumed has no cycle; finish() is only reached when peek() is None",
                assumptions=["the token stream is finite"]),
    "C07": dict(study="conv", props=["marks"], crate="vharness.lib",
                floors={"obligations": 60, "writes": 1000, "functions": 60},
                need=["TokenHash", "TokenDitto", "TokenAmpersand", "ItemNewLine", "TokenWord"],
                rule="path-sensitive abstract interpretation of MIR: for each kind of leaf, the concatenation of everything written on any successful path is compared with what that mark has to come out as, per mode and environment at entry",
                assumptions=["what the kinds of tokens stand for is fixed by the lexer's token definitions"]),
    "C08": dict(study="shape", props=["shape"], crate="vharness.lib",
                floors={"obligations": 85, "functions": 60, "outcomes": 100},
                need=["ItemCmd has its name", "leaves have kinds of leaves", "names of environments are not taken for commands", "has an argument", "the leaf of the token AtSign"],
                rule="path-sensitive abstract interpretation of MIR: a ghost stack of open nodes records kinds and first children; at start_node, token and finish_node the shape rules of the kind are checked; the table Token -> SyntaxKind is evaluated token by token",
                assumptions=["Lexer::peek/peek_text/eat describe one stream of tokens", "rowan's builder keeps kinds and order"]),
    "C09": dict(study="conv", props=["panic"], crate="vharness.lib",
                floors={"obligations": 40, "outcomes": 150, "functions": 60},
                need=["mitex::converter::Converter::convert[ItemCmd]", "mitex::converter::Converter::convert[ItemLR]"],
                rule="path-sensitive abstract interpretation of MIR: every reachable call to a panic function, failed check (overflow, bounds, division), string slice, index and listed panicking std call is a violation unless the path condition, a tree shape of C08 or the inferred invariant excludes it",
                assumptions=["the tree has the shapes of C08 and comes from parsing with the same specification", "the text of a command token begins with a backslash"]),
    "C10": dict(study="pure", props=["pure"], crate="vharness.lib",
                floors={"obligations": 150, "functions": 1000, "call_sites": 2500},
                need=["mitex::converter::Converter::convert:", "mitex_parser::parser::Parser::parse:", "DEFAULT_SPEC", "mitex_lexer::token::lex_command_name", "argument 1 cannot change"],
                rule="effect analysis on the call graph of the monomorphised MIR: no function of this repository that is reachable from the entry points calls an effectful function, uses mutable or thread-local statics, addresses or the order of a randomly seeded table; every static reached is immutable or filled once from constants",
                assumptions=["the libraries used (std, rowan, logos, fxhash, rkyv) have no observable effects of their own", "targets of calls through function pointers and trait objects are those whose address is taken or which are coerced on a reachable path"]),
    "C11": dict(study="flow", props=["names"], crate="vharness.lib",
                floors={"obligations": 18, "writes": 1000, "outcomes": 150, "functions": 60},
                need=["[ItemCmd]: the name is written once", "[ItemEnv]: the name is written once", "[TokenCommandSym]: the name is written once", "the specification is handed on", "names are those of the specification"],
                rule="path-sensitive abstract interpretation of MIR: each text that is written and stems from a look-up in the specification or from the element's name token must have been looked up under that name in the specification of the call; at each successful exit a name has been written once; each specification passed to a callee is the caller's (or the default one where none was given)",
                assumptions=["the text of a command token begins with a backslash"]),
    "C12": dict(study="flow", props=["flow"], crate="vharness.lib",
                floors={"obligations": 20, "writes": 1000, "outcomes": 150, "functions": 60},
                need=["convert[" + k + "]: every part is converted" for k in ("ItemCmd", "ItemEnv", "ItemCurly", "ItemFormula", "ItemLR", "ItemParen", "ItemText", "ScopeRoot", "ClauseArgument")] + ["no part is converted twice"],
                rule="path-sensitive abstract interpretation of MIR: at each successful exit of a conversion of a node an iteration over all its children has come to its end; elements that it yields and that are not handed to a conversion are of kinds that may be left out; none is handed on twice",
                assumptions=["std iterators yield each element of their source once"]),
    "C13": dict(study="cli", props=["cli"], crate="mitex.bin",
                floors={"obligations": 20, "functions": 30},
                need=["success means that the output has been written", "a failure is not reported as success", "errors are errors", "leaves with an error", "files change after a successful conversion only", "the file that is read", "the file that is written", "what is converted", "convert_text is used for its stage", "parse is used for its stage", "the second positional argument is the output"],
                rule="path-sensitive abstract interpretation of the MIR of the command line tool from main; ghosts for the subcommand, the files named by the arguments, the outcome of each effect and the result of the conversion; every way to end the process is a sink",
                assumptions=["clap parses arguments as declared", "std::fs::write leaves the whole text in the file if it says so"]),
    "C14": dict(py="lexpat", study="lex", props=["cmd"], crate="mitex_lexer.lib",
                floors={"obligations": 50, "patterns": 15, "pairs_of_states": 60, "outcomes": 60},
                need=["nothing is skipped", "every character is a token", "Word: its texts", "Generic: the commands of this kind", "BeginMath: the commands", "EndIf: the commands"],
                rule="equivalence of regular languages: the automaton of all token patterns in the source (with their priorities) against that of the definition, over all reachable pairs of states; path-sensitive abstract interpretation of MIR for the kinds of commands",
                assumptions=["logos takes the longest match and, among equals, the highest priority"]),
    "C15": dict(study="mac", props=["macro", "queue"], crate="vharness.lib",
                floors={"obligations": 75, "functions": 50, "turns": 300, "calls of helpers": 25, "outcomes": 90},
                need=["one token is read from the text", "with macros: eat takes the token in front", "without macros: eat takes the token in front", "tokens that are no commands are handed on unchanged", "a defined command is replaced by its definition", "a defined environment is replaced by its definition", "skipping stops at the", "all of their states are known", "Provide: what is defined", "a definition is read where it stands"],
                rule="path-sensitive abstract interpretation of MIR over lists of tokens as terms (push, pop, reverse, append, pages of the text): at each turn of the macro engine, for each kind of token, what has been handed on, what is still to come, the definitions made and the state of the conditionals are compared with what the token asks for; the table of transitions of the conditionals that results is compared with that of the definition; eat, peek and the rest of the parser's view of the queue against the same lists",
                assumptions=["a text is a sequence of tokens (C14)", "Vec, Option and iterator adapters of std do what they are documented to do"]),
}
