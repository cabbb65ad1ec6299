#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

AST="src/parser/lua_ast.rs"; GR="src/parser/lua_syntax.lalrpop"; LX="src/parser/lua_lexer.rs"; LU="src/parser/lexer_util.rs"
CAST="src/parser/comment_ast.rs"; CGR="src/parser/comment_syntax.lalrpop"; CLX="src/parser/comment_lexer.rs"
LIST="src/formatting/list.rs"; DEC="src/formatting/decoration.rs"; HINT="src/formatting/loc_hint.rs"; UT="src/formatting/util.rs"
REC="src/formatting/reconstruction.rs"; CFG="src/config.rs"; FM="src/formatter.rs"; FU="src/file_util.rs"; MAIN="src/main.rs"; COM="src/parser/common.rs"

prop("C01","Formatting keeps every token of the program, in order, and adds none",
 "For every program the formatter accepts and every combination of options, the output consists of exactly the program's own tokens - each keyword, operator, bracket, separator, name and literal with its own text - in source order. The only changes to tokens are the documented ones: a table field separator is replaced by the configured one, the separator after a table's last field is added or dropped when that is configured (or the table is put on one line), and a single-quoted string is re-quoted when that is asked for.",
 ["inputs","configurations","programs"],"all accepted programs, all 48 options, with and without a line range",
 "75 kinds of syntax node times thousands of option combinations times in-range/partly-in-range/out-of-range; the tests check selected programs under selected configurations.",
 [GR,AST,LIST,DEC,REC],[("grammar actions build the node",GR),("per-node writer",AST),("list writers",LIST),("tree preparation",REC)],["text returned by process_buffer_with_config"])
prop("C02","Every comment is kept, exactly once and between the same two tokens",
 "For every accepted program and all options, each stretch of source between two adjacent tokens (the comments and blank space there) is rendered exactly once, between the output images of those same two tokens and in source order. So, unless comment removal is asked for, no comment is lost, duplicated or moved past a token.",
 ["inputs","configurations","programs"],"all accepted programs, every gap of every construct, all options, with and without a line range",
 "A comment can sit in any gap of any construct; the tests put comments in some gaps under some options.",
 [GR,AST,LIST,DEC,HINT],[("gap positions recorded per node",GR),("gaps written by the node writers",AST),("gap writer",HINT),("newline wrapper",DEC)],["text returned by process_buffer_with_config"])
prop("C03","A comment keeps its text and its kind",
 "A comment that is written keeps its text: a one-line comment is written as -- and its text and is always followed by a line break, a long comment keeps its bracket level and its text. Only the leading or trailing blanks of the text that a configured text hint replaces may change, a comment disappears only when comment removal is on, and where a one-line comment is removed its line break stays unless newline removal is on.",
 ["inputs","configurations"],"all comment texts, levels and positions, all comment options",
 "Comment text is arbitrary; the tests use a few short comments and a few option combinations.",
 [CLX,LU,CGR,CAST],[("comment lexer",LU),("comment grammar",CGR),("comment writer",CAST)],["text returned by process_buffer_with_config"])
prop("C04","Neighbouring tokens never run together",
 "Whatever spaces, newlines and comments the options remove, two tokens that the source separates are still lexed as the same two tokens in the output; in particular two words or numbers, two minus signs, square brackets, dots, or comparison and shift characters never merge into a different token or into a comment.",
 ["inputs","configurations","programs"],"all pairs of adjacent tokens a program can contain, all options that remove space",
 "The number of token pairs times option settings; the tests cover typical pairs with the usual hints.",
 [AST,HINT,DEC,LIST,CAST],[("space hints given per gap",AST),("gap writer",HINT)],["text returned by process_buffer_with_config"])
prop("C05","Each token is spelled the same way in the lexer, the grammar and the writer",
 "The characters the lexer consumes for an operator, bracket or keyword are the spelling the grammar's terminal stands for and the spelling the formatter writes back; the reported token span is exactly the consumed characters, and a name, number, string or long string token carries exactly its own source text (and level).",
 ["inputs","programs"],"all tokens, all positions in the input",
 "A token's span and text depend on where and next to what it occurs (end of input, multi-byte text, escapes); unit tests sample a few.",
 [LX,LU,GR,AST],[("lexer",LX),("character scanners",LU),("terminal table",GR)],["tokens fed to the parser"])
prop("C06","The lexer splits text into tokens as the Lua 5.3 manual says",
 "For every input text the division into names, keywords, operators, numerals, short and long strings, comments and blank space follows Lua 5.3's longest-match rules: every valid Lua 5.3 numeral, string, long bracket and comment is recognised as one token with its exact extent, and no valid sequence of tokens is split differently.",
 ["inputs"],"all input texts",
 "Infinitely many character sequences; the tests use a few dozen.",
 [LX,LU],[("lexer",LX),("character scanners",LU)],["tokens fed to the parser"])
prop("C07","Every syntactically valid Lua 5.3 program is accepted",
 "Every token sequence that Lua 5.3's grammar derives is accepted by the formatter's grammar: no construct, operator combination, statement order or optional part of the language is rejected with a parse error.",
 ["inputs","programs"],"all programs of the Lua 5.3 grammar",
 "The language is infinite; the tests parse selected programs.",
 [GR],[("grammar",GR)],["result of parsing"])
prop("C08","Expression structure is never re-associated or re-ordered by formatting",
 "The formatter writes the operands and operators of an expression in source order with every source parenthesis kept and no parenthesis added, so the formatted expression has the same meaning as the original.",
 ["inputs","programs","configurations"],"all expressions, all options",
 "Operator combinations are unbounded; tests sample a few.",
 [GR,AST],[("operator grammar",GR),("operator writer",AST)],["text returned by process_buffer_with_config"])
prop("C09","With a line range, text outside the range is left byte for byte as it was",
 "When a line range is given, every part of the program that lies entirely outside the range (widened to the top-level statements it touches) is copied to the output unchanged - tokens, separators, comments, blanks and newlines alike - whatever the other options say. The newline written at the end of the file when that is asked for is the one exception.",
 ["inputs","configurations","programs"],"all programs, all line ranges, all other options",
 "Ranges cut constructs at arbitrary places; the tests use a few ranges on a few programs.",
 [AST,CAST,LIST,HINT,UT,REC],[("range tests",UT),("raw copying",AST),("range widening",REC)],["text returned by process_buffer_with_config"])
prop("C10","Each option name sets exactly its own option, with validation",
 "Setting an option by its documented name, on the command line or in a configuration file, changes exactly the option of that name, to the parsed value, and nothing else; a value of the wrong type or an unknown name changes nothing and is reported. The verbose listing shows every option that is set under its own name.",
 ["inputs","configurations","histories"],"all option names and values, all sequences of settings",
 "49 names times all values; the tests set a few.",
 [CFG],[("option setter",CFG),("listing",CFG)],["the configuration after set"])
prop("C11","A configuration file's assignments are applied exactly as options",
 "Loading a configuration file applies each of its top-level assignments of one number, string, true or false to one name, in file order, as if set as an option on top of the current configuration, and ignores other statements; a file that cannot be read or parsed gives an error and no configuration.",
 ["inputs","configurations"],"all configuration files",
 "File contents are arbitrary; no unit test covers the loader's error paths.",
 [CFG],[("loader",CFG)],["the configuration returned"])
prop("C12","Command-line flags and paths are interpreted exactly as documented",
 "Of the program arguments, those beginning with - are options and the rest are paths; -i/--inplace, -r/--recursive and -v/--verbose (one or two dashes, short or long) switch on exactly their own mode, --name=value sets that format option, and anything else is reported as unrecognised and ignored.",
 ["inputs","configurations"],"all argument lists",
 "Argument combinations are unbounded; one test checks five lists.",
 [MAIN],[("argument parsing",MAIN)],["configuration and modes"])
prop("C13","Files are modified only in place mode, only with the finished result",
 "The program writes to a file only when in-place mode is on, only to the very file that was read and formatted, only after formatting it succeeded, and with exactly the formatted text; in every other case no file is created, changed or deleted. Without in-place mode the formatted text goes to standard output instead.",
 ["inputs","configurations","fault_sequences"],"all runs of the program and of the library entry points",
 "No test exercises the binary's write path or its failure paths.",
 [MAIN,FM,FU],[("write of the result",MAIN)],["file system effects"])
prop("C14","Errors are reported and never turn into output",
 "When reading, parsing, configuring or formatting an input fails, that input yields an error message on standard error and no output text, no partial text and no file write, and the remaining inputs are still processed. A failure inside a nested piece of formatting is passed up, never dropped.",
 ["inputs","fault_sequences","configurations"],"all failures at all points",
 "Tests exercise success paths and a few parse errors.",
 [FM,MAIN,AST,CAST,LIST,HINT,DEC],[("error results",FM),("? in writers",CFG)],["stdout, stderr, files"])
prop("C15","A directory argument selects exactly the documented files",
 "A file argument selects that file; a directory selects exactly the regular files in it with extension lua whose name does not start with .luafmt, descending into subdirectories only with the recursive flag; a path that is neither is reported and an unreadable directory is an error.",
 ["inputs","configurations"],"all directory trees",
 "Tests use at most one small directory.",
 [FU,MAIN],[("file discovery",FU)],["list of files processed"])
prop("C16","The nearest configuration file is used, and explicit options win",
 "If no format option is given on the command line, a file is formatted with the configuration file (name starting .luafmt, extension lua) found in the nearest directory among its own directory and its ancestors, and it is an error if there is none; if any format option is given, no configuration file is consulted. The line range given on the command line stays in force with a configuration file that does not set one.",
 ["inputs","configurations"],"all directory layouts and option sets",
 "Tests do not build directory hierarchies.",
 [FU,FM,CFG],[("config search",FU),("choice of configuration",FM)],["configuration used"])
prop("C17","No combination of options or input makes the formatter panic",
 "Formatting never aborts with a panic: for every input text and every combination of set and unset options, optional settings are used only where they are set, text is only cut at character boundaries, and no index is out of bounds.",
 ["inputs","configurations"],"all inputs and all combinations of set and unset options",
 "2^48 option subsets; the tests use a few.",
 [AST,CAST,LIST,HINT,DEC,UT,CFG,FM,MAIN],[("option tests",AST),("text slicing",HINT)],["process status"])
prop("C18","Indentation and nesting levels are balanced in every construct",
 "After any construct has been written, the indentation and nesting levels are what they were before it, whatever options, line range or single-line choices were in force; so sibling statements are always indented alike, by whole copies of the indentation string.",
 ["inputs","configurations","programs"],"all constructs, all options",
 "Imbalance shows only for particular construct and option combinations.",
 [AST,DEC,LIST,UT],[("increase/decrease pairs",AST),("level bookkeeping",DEC)],["indentation of following lines"],[dict(name="indent_level/stack_indent/function_nested_level",meaning="current nesting",where=CFG)])
prop("C19","Trial layouts never leak into the output",
 "When the formatter tries out a one-line layout or an indentation to decide about line breaks, the trial changes neither the text written so far nor the formatter's running state or configuration; a trial's text reaches the output only as the complete rendering of the construct it was tried for.",
 ["inputs","configurations"],"all trial sites, all options",
 "Leaks depend on nesting of trials under particular widths.",
 [AST,UT,LIST],[("test_oneline macros",UT),("test_indent",AST)],["text returned by process_buffer_with_config"])
prop("C20","Lexing and formatting always terminate",
 "For every input the lexer makes progress on every step and reaches the end of input, and every recursion of the formatter is on a strictly smaller part of the program or on the same part with the option that triggered it switched off.",
 ["inputs","configurations"],"all inputs and options",
 "Termination for all inputs cannot be sampled.",
 [LX,LU,CLX,AST,LIST],[("lexer loops",LX),("single-line trial switches its trigger off",AST)],["termination"])
prop("C21","The result depends only on the text and the options",
 "Formatting the same text with the same options always gives the same output: no clock, randomness, environment, file, global mutable state or unordered-collection iteration influences it.",
 ["inputs","histories","configurations"],"all repetitions, in any order, in any process",
 "Tests run each case once.",
 [FM,AST,LIST,CFG],[("pure functions",FM)],["text returned by process_buffer_with_config"])
prop("C22","Character positions are always translated to byte positions",
 "Source text is addressed by character position everywhere and is copied only through the one translation to byte offsets, whose table covers every character and the end of the input; so non-ASCII text is copied exactly.",
 ["inputs"],"all texts including multi-byte characters",
 "Tests contain little multi-byte text.",
 [COM,REC,LX,CLX,HINT],[("substr",COM),("position table",REC)],["text returned by process_buffer_with_config"])
prop("C23","Tree preparation reaches every part of the program",
 "Before writing, the preparation pass visits every node of the tree in every construct exactly once, keeps its shape, and applies the quote conversion and table classification to every string and table, however deeply nested.",
 ["inputs","programs","configurations"],"all programs",
 "A missed child shows only for a string or table nested in that particular construct.",
 [REC],[("traversal",REC)],["text returned by process_buffer_with_config"])
prop("C24","Quote conversion preserves the value of the string",
 "Converting a single-quoted string to double quotes yields, for every string, a well-formed double-quoted string denoting the same characters: every unescaped double quote gains a backslash, and everything else is kept.",
 ["inputs"],"all string contents",
 "String contents are arbitrary; four examples are tested.",
 [UT,REC],[("conversion",UT)],["text returned by process_buffer_with_config"])
prop("C25","Each formatting option influences only what it is documented to influence",
 "An option takes part in laying out only the constructs it names: the line-break and single-line options of functions, conditionals, each kind of loop, tables, expression lists, operators, suffixes and statements only in those constructs, the options on comments and blanks only in the stretches between tokens and in comments, the quote option only in quoted strings.",
 ["configurations","inputs"],"all options, all programs",
 "Cross-effects show only for particular combinations of an option and a construct; there are over two thousand.",
 [AST,CAST,LIST,HINT,REC],[("option reads",AST)],["text returned by process_buffer_with_config"])
prop("C26","Line-break options put each part on its own line at the right indentation",
 "When a line-break option asks for it and no single-line option overrides it, in every form of the construct each part it names (body of a function, branch or loop and the keyword after it, each statement, field or expression after the first, the closing brace, the operator or its right operand, the end of the file) begins on a line of its own, indented by the nesting level of the construct (bodies and operands one level more), and is itself laid out at that level.",
 ["configurations","inputs"],"all forms of the constructs, all nesting levels, all other options",
 "Tests cover some forms of each construct at one or two nesting levels.",
 [AST,LIST,UT,HINT],[("layout of constructs",AST),("line break and indentation",HINT)],["text returned by process_buffer_with_config"])
prop("C27","With no option set the text is reproduced character for character",
 "With no formatting option set, formatting returns the program as it is: no construct, comment or stretch between tokens gains or loses a character, apart from the line break after a comment or #! line that ends the file, and the closing brace of an empty table whose braces are on different lines, which gets a line of its own.",
 ["inputs","programs"],"all programs",
 "Tests compare a few programs; the guarantee is per construct and per form.",
 [AST,CAST,LIST,HINT,REC],[("writer arms",AST),("stretch between tokens",HINT)],["text returned by process_buffer_with_config"])
prop("C30","Formatting twice gives the same text as formatting once",
 "Formatting the formatter's own output with the same options gives the same text again.",
 ["inputs","configurations"],"all programs and options","Fixpoints over all texts cannot be sampled.",
 [AST,LIST,UT],[("layout decisions",AST)])
prop("C31","Lines longer than the configured width are produced only where unavoidable",
 "A construct that is put on one line because of a single-line option fits within the configured maximum width.",
 ["inputs","configurations"],"all programs and widths","Widths depend on run-time text lengths.",
 [UT,AST],[("width test",UT)])
prop("C32","Formatting time grows reasonably with program size",
 "The time to format a program is bounded by a low-degree polynomial in its size, whatever the nesting.",
 ["inputs","configurations"],"all programs","Tests format short programs.",
 [AST],[("trial layouts",AST)])
prop("C33","A crash while writing a file never loses the original",
 "If the process or machine stops during an in-place run, each file holds either its old or its new contents.",
 ["crash_points"],"all crash points","No test crashes the process.",
 [MAIN],[("write of the result",MAIN)])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
