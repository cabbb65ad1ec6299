"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the MIR on the syntax tree of every grammar production'
CHECKS = {
 'C01': (AI + ': written pieces against the production', 'other', 'Covers every production, option setting, line range and tree position symbolically; lists are unrolled to 2 items (3 thorough). Trusts the MIR dumper, the interpreter and its std models.'),
 'C02': (AI + ': rendered gaps against the production', 'other', 'As C01, for the comment and blank stretches between tokens.'),
 'C03': ('abstract interpretation of the MIR of the comment lexer over an unknown text and of the comment writer on every production of the comment grammar', 'other', 'Texts are known by the classes of their outer characters with an unknown middle; long comments up to level 2 (3 thorough); lists of up to 2 alternations.'),
 'C20': ('abstract interpretation of the lexers with every turn of a loop required to consume, a loop-progress query over the MIR of the crate, and a fixpoint over the configurations constructs are nested with', 'other', 'Termination of the generated parser and of std is trusted; recursion on children is structural.'),
 'C04': ('abstract interpretation of the MIR of the rendering between tokens on every pair of token ends that merge by the lexical rules, and of every construct on where that rendering is cut or left out', 'other', 'Token ends are followed for up to four characters of each class; pairs of neighbouring terminals are computed from the grammar.'),
 'C07': ('inclusion of a reference grammar of Lua 5.3 in the grammar of the generated parser, by simulation between nonterminals with Earley recognition of sentential forms', 'other', 'The reference grammar follows the manual, including its rule for a parenthesis after an expression; four rejected forms are known findings and are left out of it.'),
 'C05': ('abstract interpretation of the MIR of the lexer over an unknown byte stream, compared with a reference lexer of Lua', 'other', 'Every prefix of every input, tracked as character classes; long brackets up to level 2 (4 thorough). Loops converge on canonical states.'),
 'C06': ('abstract interpretation of the MIR of the lexer over an unknown byte stream, compared with a reference lexer of Lua', 'other', 'As C05, for which inputs are accepted and which kinds the tokens have.'),
 'C08': (AI + ': operand order and parentheses', 'other', 'As C01, for the expression productions.'),
 'C09': (AI + ': the writer under line ranges placed at every boundary', 'other', 'Positions matter only by order; ranges are placed at and between all token boundaries. Lists are unrolled to 2 items (3 thorough).'),
 'C10': ('abstract interpretation of the MIR of the option setter and listing, once per option name, patterns compared as regular languages', 'other', 'Every option name with an unknown value and an unknown name; all paths.'),
 'C11': ('abstract interpretation of the MIR of the configuration loader on every shape of configuration file', 'other', 'Every kind of top-level statement and value, up to three statements in a row (the loop repeats), read and parse failures.'),
 'C12': ('abstract interpretation of main with arguments as regular languages', 'other', 'Argument lists of up to 2 unknown strings (3 thorough).'),
 'C13': ('abstract interpretation of main and the library entry points with file operations recorded, and an effect query over all call sites', 'other', 'Up to 2 arguments (3 thorough) and 2 files per path; the call-site query covers every function.'),
 'C14': ('abstract interpretation of main, the library entry points and every writer arm with every failure followed', 'other', 'As C01 and C13.'),
 'C15': ('abstract interpretation of the file search on an unknown directory', 'other', 'Directories of up to 2 entries (3 thorough), all kinds, names and failures; names are valid UTF-8.'),
 'C16': ('abstract interpretation of the configuration search and choice on unknown directories', 'other', 'Up to 3 ancestor directories (4 thorough) of up to 2 entries.'),
 'C17': ('abstract interpretation of the MIR: every place that can panic is listed and must be ruled out on every path of every interpretation', 'other', 'Overflow of counters, deep nesting, memory and closed standard output are assumed away.'),
 'C18': (AI + ': state equality on exit', 'other', 'As C01; the state record after each construct is compared with the one before it.'),
 'C19': (AI + ': effects of trial renderings', 'other', 'As C01; a rendering that fails half-way is taken to leave the nesting state arbitrary.'),
 'C21': ('effect query over the call graph of the MIR: everything reachable from the entry point, with statics and hash tables', 'other', 'All functions reachable from the library entry point; operations of std, regex and phf are judged by name.'),
 'C22': ('abstract interpretation of the MIR from the text to the position table, of every place that cuts the source in the writer, and of the library entry point', 'other', 'Texts of up to 3 unknown characters (5 thorough); constructs as C01.'),
 'C24': ('abstract interpretation of the MIR of the conversion on every kind of string, as a transducer against the rules of string escapes', 'other', 'Texts of up to 4 items (5 thorough) of every class of characters; the state of the loop repeats.'),
 'C25': (AI + ': options that decide a branch or are written, per construct', 'other', 'As C01, every option unknown. Which option belongs to which construct is a table in checks/influence.py, from the names and descriptions of the options.'),
 'C26': (AI + ': line breaks and indentation on every path with one option set', 'other', 'As C01 for constructs with a body; the line-break option has its value 1 (or true; 1 and 2 for operators), options that override it are unset, the others unknown.'),
 'C27': (AI + ': written pieces with no option set', 'other', 'As C01 with every option unset; comment texts as C03.'),
 'C23': (AI + ': visits of children by the preparation pass', 'other', 'As C01, for reconstruct_node_tree.'),
}
NA = {
 'C30': 'Idempotence relates the output of one run to the lexing and layout of a second run over widths and text lengths; no static argument over the source bounds those quantities, and comparing two executions is testing.',
 'C31': 'Whether a line fits depends on the lengths of arbitrary texts at run time; no sound static argument in reach bounds them.',
 'C32': 'Running time as a function of program size is a quantitative run-time property (nested trial layouts make it exponential in nesting depth); static analysis here does not bound it.',
 'C33': 'Crash atomicity is a property of the operating system\'s file writes, not decidable from this source; the program uses one plain fs::write.',
}
PENDING = 'no check has been built for it yet'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, l, n = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i, 'technique': t, 'level': l,
                       'level_note': n, 'evidence_file': 'evidence/%s.json' % i})
    else: na.append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/extract.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
