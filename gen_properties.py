#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe_at=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": ", ".join(files)} for m in mechanism.split(";")]}
    if observe_at: a["observe_at"] = observe_at
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CORE = ["vimlparser.go", "go/vimlparser.go", "go/type.go", "go/export.go", "go/vimlfunc.go"]
p("P01", "Parsing is total: a usable AST or a typed syntax error, never both",
  "For every byte sequence, ParseFile and ParseExpr return either a complete, non-nil AST or, for a syntax error, a non-nil *ErrVimlParser with a nil AST; they never panic, never report an internal failure as an error and never loop. Every AST they return can be walked, compiled and marshalled without a panic or an error, every position in it and in every error lies inside the input or at its end, and Filename, Line, Column and Msg of an error appear in Error() in the documented format.",
  ["inputs", "configurations"], "every input text, valid or not, for both entry points, with and without Neovim mode and a file name",
  "The tests parse about 60 well-formed scripts and a handful of broken ones; a nil dereference, an index out of range or a wrong type assertion on any other text is turned into an untyped error by recover() and is never seen.",
  CORE + ["ast/walk.go", "compiler/compiler.go"],
  "ParseFile/ParseExpr recover panics; Err() carries positions; newAstNode converts each node with type assertions that rely on the parser having closed every block")
p("P02", "Parsing and compiling take a bounded amount of work",
  "The number of steps ParseFile, ParseExpr, Walk and Compile execute grows at most polynomially (about quadratically) with the size of the input, for long input as for deeply nested input of every construct. No input sends them into an endless loop.",
  ["inputs"], "every construct repeated or nested n times, for growing n",
  "The tests use scripts of a few lines, on which an accidental exponential or cubic algorithm costs nothing.",
  CORE + ["compiler/compiler.go", "ast/walk.go"],
  "recursive descent with seek_set backtracking and a per-parser token cache; dict attempted before curly name; block and lambda fallbacks")
p("P03", "Block commands nest exactly as Vim's block rules say",
  "A sequence of block commands (function, if/elseif/else, while, for, try/catch/finally and their ends, return, break, continue) parses if and only if every block is opened, continued and closed in a legal order, and then each statement is in the body of exactly the block or branch that encloses it, with every end command attached to its opener. Otherwise the first offending command, or the end of the file for an unclosed block, is reported with an error that names the block rule it breaks.",
  ["inputs", "programs"], "every sequence of block commands",
  "The tests contain a few legal nestings and a few missing ends; the legal and illegal sequences of 17 commands are unbounded.",
  ["go/vimlparser.go", "go/export.go", "go/type.go"],
  "context stack (push_context, pop_context, find_context), check_missing_*, parse_cmd_* for block commands, newAstNode for blocks")
p("P04", "Every node carries the exact source position of its token",
  "The position of every AST node (line, 1-based byte column, 0-based byte offset, file name) is that of the token that defines the node: the command name for a statement, the quote for a comment, the operator, bracket, parenthesis or first character for an expression. The same holds for the positions of the line, the command and the argument of each Ex command, and it holds after line continuations, tabs, multi-byte characters, modifiers, ranges and bars. A position prints as file:line:column, or line:column without a file name.",
  ["inputs", "programs"], "every node of every script, however it is laid out on lines",
  "The tests check a few positions on single ASCII lines; columns and offsets after continuation lines, multi-byte text and bars are never compared.",
  ["go/type.go", "go/vimlparser.go", "go/export.go", "ast/node.go", "ast/pos.go", "ast/exarg.go"],
  "StringReader.__init__ builds the position table; parser functions store getpos(); newPos and newExArg copy it")
p("P05", "A syntax error is located at the first offending token",
  "For a script with one syntax error, the error returned carries the message (Vim's error number where there is one) of that error and the line, byte column and byte offset of the offending token or command. Valid text before the error and arbitrary text after it do not change what is reported, except that lines and offsets move with the preceding text.",
  ["inputs", "programs"], "every kind of syntax error the parser reports, at every place in a script",
  "The tests compare the text of about 30 errors, nearly all on the first lines of small scripts, and no offsets.",
  ["go/vimlparser.go", "go/type.go", "vimlparser.go"],
  "Err(msg, pos) at about 100 sites; ParseFile copies ParseError into ErrVimlParser")
p("P06", "Expressions parse to the tree Vim's grammar prescribes",
  "Every expression of the Vim script grammar (ternary, logical, comparison, arithmetic and concatenation operators, unary operators, subscripts, slices, dots, calls, methods, literals, lists, dictionaries, lambdas, curly-braces names) parses, as an expression of its own and as an argument of any command, to the tree that the documented precedence and associativity prescribe. White space, redundant trailing commas and line breaks inside an expression do not change that tree. The pieces of a curly-braces name tell whether they are expressions.",
  ["inputs", "programs"], "every expression tree and every legal layout of it",
  "The tests compare the compiled form of about 100 small expressions, which leaves most pairs of operators and all deeper combinations unexamined.",
  ["go/vimlparser.go", "go/export.go", "token/token.go"],
  "ExprTokenizer.get2, ExprParser.parse_expr1..9, parse_dot, parse_curly_parts; newAstNode, opToken")
p("P07", "Every command becomes the right statement and none is lost",
  "Each command of a script becomes exactly one statement of the type that belongs to it, in source order, with its operands (left-hand sides, right-hand side, parameters and their defaults, attributes, patterns, expression lists, heredoc lines) as written, whether commands are separated by lines or bars and whatever comments follow. Command text that the parser does not interpret is kept in the statement, so no command is dropped, merged or duplicated.",
  ["inputs", "programs"], "every sequence of commands and every legal layout of it",
  "The tests hold one or two examples of each command, always written the same way.",
  ["go/vimlparser.go", "go/export.go", "go/builtin_commands.go"],
  "parse_one_cmd, parse_command, parse_trail, separate_nextcmd, parse_cmd_*; newAstNode")
p("P08", "Modifiers, ranges, bangs and command options are recorded exactly",
  "For every Ex command the extra arguments of its statement tell what was written: the modifiers in order with their counts and bangs, the range tokens in order, the command's bang, the ++opt file options, the +cmd argument, filter and append forms and the shift amount. Nothing that was not written is reported.",
  ["inputs", "programs"], "every combination of modifiers, range, command, bang and options",
  "No test looks at the recorded range, modifiers or options at all.",
  ["go/vimlparser.go", "go/export.go", "ast/exarg.go"],
  "parse_command_modifiers, parse_range, parse_command, parse_argopt, parse_argcmd; newExArg")
p("P09", "The Go parser agrees with the Vim script reference parser",
  "For every script (of valid UTF-8 without combining characters, NUL and carriage return, which Vim itself cannot hand to the reference unchanged), parsing and compiling with this package gives the same S-expression, or the same error message at the same line and column, as the reference implementation autoload/vimlparser.vim gives when Vim runs it, in Vim and in Neovim mode.",
  ["inputs", "configurations"], "every script, valid or not, in both modes",
  "The tests compare with recorded output of the reference for about 60 scripts; the reference is never run on anything else.",
  ["autoload/vimlparser.vim", "go/vimlparser.go", "go/vimlfunc.go", "go/type.go", "compiler/compiler.go"],
  "go/vimlparser.go is translated from autoload/vimlparser.vim, with hand-written helpers and an independent compiler")
p("P10", "The committed Go parser is what the translator makes of the reference",
  "Translating autoload/vimlparser.vim with the repository's own generator yields a Go parser and command table that behave exactly like the committed ones: the same AST with the same positions and extra arguments, or the same error, for every input. So regenerating never changes what users see.",
  ["inputs", "configurations"], "every input, in both modes",
  "No test runs the generator on the parser; drift between source and translation shows only on inputs that reach the difference.",
  ["go/generate.vim", "go/gocompiler.vim", "go/gen_builtin_commands.vim", "go/vimlparser.go", "go/builtin_commands.go", "autoload/vimlparser.vim"],
  "generate.vim compiles the Vim script source to Go; the result is committed")
p("P11", "Line continuations are transparent",
  "Splitting a logical line over several physical lines with a leading backslash, after any amount of indentation and at any character, changes nothing about the result except positions: the same AST or the same error, with every line, column and offset equal to that of the same character in the new layout. A backslash that does not lead its line is never taken for a continuation.",
  ["inputs", "programs"], "every script and every way of splitting its lines",
  "The tests contain a few hand-written continuations and check no positions behind them.",
  ["go/type.go", "go/vimlparser.go"],
  "StringReader.__init__ joins lines and keeps a position per character")
p("P12", "Command names resolve by Vim's abbreviation rules in both modes",
  "Every name from the minimal abbreviation to the full name of a built-in command selects that command (the first in the table when several match) with its own flags, a shorter one does not, a capitalised unknown name is a user command and any other name is the error E492. Neovim mode adds and removes exactly the listed commands, and what a name means never depends on the names seen before it.",
  ["inputs", "histories", "configurations"], "every command name and prefix, in both modes, after any other commands",
  "The tests use a few dozen of some 560 commands, mostly under their full names, and Neovim mode in two tests.",
  ["go/vimlparser.go", "go/builtin_commands.go", "autoload/vimlparser.vim"],
  "find_command with its cache, builtin_commands, neovim_additional_commands, neovim_removed_commands")
p("P13", "Walk and Inspect visit every node once, in order, and prune correctly",
  "Walk and Inspect call the visitor exactly once for each node reachable from the root, parents before children and siblings in source order (a function's parameters come before their default values), close each entered node with one nil visit, and use for the children of a node the visitor returned for that node. When the visitor declines a node, exactly its descendants are skipped. This holds for ASTs built or changed by hand too, where children may be missing.",
  ["inputs", "programs"], "every AST and every choice of nodes to decline",
  "The tests walk two scripts and look at the number or the kind of some nodes; no test checks that all fields of all node types are followed.",
  ["ast/walk.go", "ast/node.go"],
  "type switch in Walk over all node types; inspector")
p("P14", "Compile is a pure, deterministic function of the AST",
  "Compiling an AST never modifies it, gives the same bytes every time, whether with a fresh or a reused Compiler, and uses the configured indentation and nothing else for nesting. It returns the writer's error when the writer fails, and an error rather than output for a node that is no statement of its own.",
  ["inputs", "histories", "fault_sequences"], "every AST, any sequence of compilations, any failing writer",
  "The tests compile each AST once, into a buffer.",
  ["compiler/compiler.go"],
  "Compiler keeps buffer and indentation between calls; compileFunction slices Params")
p("P15", "Compiled S-expressions render every node in the reference format",
  "Compile writes each statement and expression in the documented S-expression format, with the operator, operands, names, literals and bodies of the node in order, properly closed parentheses and the indentation of its block, for every AST the parser can produce.",
  ["inputs", "programs"], "every AST the parser can produce",
  "The tests compare recorded output for about 60 scripts, in which many node types occur once or in one context.",
  ["compiler/compiler.go", "token/token.go"],
  "compile* functions, compileExpr, escape, trimLineBreak")
p("P16", "Parses are independent of each other, also concurrently",
  "Any number of goroutines may parse, walk, compile and print at the same time without data races, and each gets exactly the result it would get alone. What was parsed before, or what a caller does to an AST it was given, never changes the result of a later parse.",
  ["schedules", "histories"], "every interleaving of calls on separate inputs or shared ASTs, and every earlier use",
  "The tests run one after another on fresh inputs and without the race detector.",
  CORE + ["go/builtin_commands.go", "compiler/compiler.go", "printer/printer.go", "ast/walk.go"],
  "package-level tables (builtin_commands, patVim2GoRegh) shared by all parsers; command structs copied by newCmd; slices and maps handed to the AST")
p("P17", "Printed expressions parse back to the same tree",
  "For every expression built of the node types the printer supports (identifiers, literals, unary and binary operators, subscripts, parentheses), whether parsed or built by hand, printing it and parsing the result gives the same tree up to parentheses, and printing that gives the same text again. Printing never changes the AST and reports the writer's error.",
  ["inputs", "programs"], "every tree of supported expression nodes",
  "The tests print 16 expressions; the precedence of most pairs of operators is not covered.",
  ["printer/expr.go", "printer/opprec.go", "printer/printer.go", "token/token.go"],
  "opprec gives precedences, binaryExpr and unaryExpr insert parentheses")
p("P18", "The command prints each file's result and reports every failure",
  "The vimlparser command writes for each file, in order, the S-expressions (or with -json the AST as JSON) that the library gives for it, reports each unreadable or invalid file on standard error with its name and position, carries on with the remaining files, and exits with status 1 if any file failed and 0 otherwise. Without arguments it does the same for standard input, and -neovim selects Neovim mode.",
  ["inputs", "configurations"], "every list of files, good, broken or missing, and every combination of flags",
  "The command has no tests.",
  ["cmd/vimlparser/main.go"],
  "main loops over flag.Args(); parseFile")
p("P19", "The result depends only on the bytes read, however they are read",
  "ParseFile and ParseExpr give the same result for the same bytes whatever the sizes of the chunks the reader delivers, however long the lines are, with or without a final newline and with LF or CRLF line ends. If the reader fails, that error is returned with a nil AST and nothing is parsed from the part read so far.",
  ["inputs", "fault_sequences"], "every input, every way of chunking it, every point at which reading fails",
  "The tests read short strings that arrive in one piece.",
  ["vimlparser.go", "go/type.go"],
  "readlines over bufio.Reader")
p("P20", "The JSON form carries the whole AST",
  "Encoding an AST as JSON always succeeds, and the JSON document contains every field of every node (texts, names, flags, extra arguments, positions) under the field's name, nested as in the AST and in order; bytes that are not UTF-8 become U+FFFD, as in every JSON document.",
  ["inputs", "programs"], "every AST the parser can produce",
  "No test encodes an AST.",
  ["ast/node.go", "ast/exarg.go", "ast/pos.go", "cmd/vimlparser/main.go"],
  "exported fields of the ast structs encoded by encoding/json")
p("P21", "Source text is kept byte for byte",
  "Comments, uninterpreted commands, literals, identifiers, patterns and heredoc, append and script lines are kept in the AST exactly as written, byte for byte, including multi-byte characters, invalid UTF-8, control characters and quotes. Every node's text equals the source text at its position, and every command and comment of the source is accounted for by some statement.",
  ["inputs"], "every script, every byte value in texts",
  "The tests use ASCII and a few Japanese characters.",
  ["go/type.go", "go/vimlparser.go", "go/vimlfunc.go", "go/export.go"],
  "StringReader splits lines into characters (splitChars); getstr, getn, readline, get_sstring, get_dstring put them together")
p("P22", "The two compilers agree",
  "The repository has two compilers to S-expressions: package compiler over the public AST, and the Compiler in package go, translated from autoload/vimlparser.vim, over the parser's own nodes. For every script and mode both write the same lines, and if one reports an error the other reports it too: nothing is lost or changed on the way from the parser's own nodes to the public AST.",
  ["inputs", "programs"], "every script that parses, in both modes, and every script that does not",
  "The tests compile some forty small scripts with each compiler on its own.",
  ["go/vimlparser.go", "go/type.go", "go/export.go", "compiler/compiler.go"],
  "Compiler.compile_* of package go, newAstNode and compiler.Compile")
p("P23", "Scripts compose and layout between statements means nothing",
  "What a script means does not depend on what is around it: putting blank lines, comments, white space, colons or another complete script before a line where a statement begins, at any depth of nesting, leaves every other statement as it was, positions moved by what was inserted, and the inserted script parses as it does alone. An error in the inserted script (other than those about unclosed or unopened blocks) is the one it has alone, at its place.",
  ["inputs", "programs", "histories"], "every pair of scripts and every place to insert one into the other",
  "The tests parse fixed scripts, each alone; state the parser keeps from one statement to the next shows only in combinations.",
  ["go/vimlparser.go", "go/type.go", "go/export.go", "vimlparser.go"],
  "parse_one_cmd and the state in VimLParser (ea, context, find_command_cache), StringReader positions")
p("P24", "A result keeps only its own memory and a parse leaves nothing behind",
  "The memory that an AST, an error or a compiled text keeps alive is proportional to what is in it: it grows no faster than the input, and not the parser's buffers or the reader. When the results are dropped all of it can be collected: however many different scripts a program parses, compiles and prints, with success or not, neither the live heap nor the number of goroutines grows with their number.",
  ["inputs", "histories"], "every input and every sequence of parses, however long",
  "No test looks at memory, and each test parses a few scripts.",
  ["go/export.go", "go/vimlparser.go", "go/vimlfunc.go", "vimlparser.go", "compiler/compiler.go", "printer/printer.go"],
  "newAstNode copies out of the parser's nodes; caches in VimLParser and ExprTokenizer; package variables of go/vimlfunc.go")
p("P25", "The stand-ins for Vim's functions and patterns behave as Vim's do",
  "The translated parser relies on functions of package go that stand in for what the reference calls in Vim: =~# with each pattern the parser uses, ==?, escape(), join(), split(), stridx(), str2nr() and range(), and the predicates of characters (isalpha, isdigit, iswordc, isnamec, isvarname and so on). For every argument the parser can pass them (texts within one line, of any characters but combining ones) each gives the value Vim gives for the same arguments.",
  ["inputs"], "every text within a line, for every pattern and function",
  "The package's test of them has a few calls per function; patterns are translated by hand, and Go's \\s, \\b, \\w and case folding are not Vim's.",
  ["go/vimlfunc.go", "go/vimlparser.go", "autoload/vimlparser.vim"],
  "patVim2Go, viml_* in go/vimlfunc.go, is* in go/vimlparser.go")

p("P26", "The AST means what the script means to Vim",
  "For every program in the language the parser supports: what its AST says (each operator applied to the operands below it, each statement carried out in its block) is what Vim does when it runs the source. Running both from the same state gives the same values, calls in the same order, messages, exceptions, variables, buffers, registers, mappings and commands, and what Vim runs without an error the parser accepts.",
  ["inputs", "programs"], "every program, valid or mutated, that Vim can run",
  "The tests compare the AST with a notation of the same authors, who have to know what Vim means by each program; a misreading of Vim's rules is then in the expected output too, as it was in several of them.",
  ["go/vimlparser.go", "go/vimlfunc.go", "go/export.go", "ast/node.go", "autoload/vimlparser.vim"],
  "ExprParser.parse_expr1..9, ExprTokenizer, LvalueParser, parse_cmd_*, separate_nextcmd; newAstNode")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
