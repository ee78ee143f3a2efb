#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table. Run by hand after editing.
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def P(id,title,statement,over,text,why,files,mech,observe,tech,note,state=None):
    return dict(p=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)),
      tech=tech,note=note)
L=[
P("C01","A generated GLL parser accepts exactly the sentences of its grammar",
  "For every context-free grammar gogll accepts (left-recursive, cyclic, nullable and ambiguous ones included) and every token sequence, the generated GLL parser terminates and reports success if and only if the sequence, after suppressed tokens are removed, is a sentence of the grammar. The verdict does not depend on earlier parses in the same process or on the order in which descriptors are processed.",
  ["inputs","programs"],"all grammars x all inputs",
  "The tests run a handful of fixed grammars on one or two inputs each; general context-free recognition is a statement over all grammars and strings and fails only for particular shapes (hidden left recursion, nullable prefixes, cycles, many contexts).",
  ["gen/golang/gll/parser.go","gen/golang/gll/codex.go","gen/golang/gll/testselect.go","frstflw/frstflw.go","gslot/gslot.go"],
  [("descriptor queue and pop set of the generated parser","gen/golang/gll/parser.go"),("code of each slot","gen/golang/gll/codex.go"),("select test of each slot","gen/golang/gll/testselect.go")],
  ["errors returned by parser.Parse of a generated parser"],
  "monitor on real generated parsers vs an independent span-fixpoint recogniser",
  "Thousands of (grammar, input) pairs; grammars curated and random, inputs sentences, mutations and noise."),
P("C02","The BSR forest holds exactly the derivations of the input",
  "For every grammar and sentence, the set of binary subtree representations a generated GLL parser returns contains every packed derivation step of every parse of the input and nothing that is not part of some span-correct derivation step. All accessors (roots, children by name and index, spans, text, dump) agree with that set.",
  ["inputs","programs"],"all grammars x all sentences of them",
  "The tests walk a few trees of unambiguous examples; completeness and soundness of a shared forest need a comparison with all derivations for many ambiguous grammars.",
  ["gen/golang/gll/bsr/bsr.go","gen/golang/gll/codex.go","gen/golang/gll/slots/slots.go"],
  [("BSR set with its indices","gen/golang/gll/bsr/bsr.go"),("slot table","gen/golang/gll/slots/slots.go")],
  ["bsr.Set of a generated parser: GetAll, GetRoots, GetNTChild*, GetTChild*, Dump"],
  "monitor comparing the exported forest with all span derivations of an oracle",
  "Packed derivations compared exactly on grammars and inputs small enough to enumerate."),
P("C03","Ambiguity is reported exactly when a second derivation exists",
  "For every parse, the generated parser's ambiguity query is true if and only if some nonterminal instance reachable from a root has more than one derivation, and each ambiguous child query returns all of its derivations. Listing the ambiguities terminates, also on cyclic forests, and names an ambiguous symbol exactly when there is one.",
  ["inputs","programs"],"all grammars x all sentences, cyclic forests included",
  "Tests exercise one ambiguous grammar; deciding ambiguity is a statement over every forest, with nesting and cycles.",
  ["gen/golang/gll/bsr/bsr.go"],
  [("IsAmbiguous, ReportAmbiguous, GetNTChildren","gen/golang/gll/bsr/bsr.go")],
  ["IsAmbiguous(), captured output of ReportAmbiguous()"],
  "monitor comparing ambiguity verdicts and reports with counts of derivations by an oracle",
  "Ambiguous, cyclic and unambiguous grammars in one workload."),
P("C04","The exported SPPF represents the same parses, and its DOT file is valid",
  "For every parse, the shared packed parse forest extracted from the result encodes exactly the derivations reachable from the root, with correct labels, extents and sharing, and extracting it leaves the parse result unchanged. The DOT rendering lists every node and edge once and is syntactically valid for all grammars, including those with quotes and backslashes in their terminals.",
  ["inputs","programs"],"all grammars x all sentences",
  "Only one test builds one SPPF and checks little of it.",
  ["gen/golang/gll/bsr/bsr.go","gen/golang/gll/sppf/sppf.go","sppf/sppf.go"],
  [("ToSPPF","gen/golang/gll/bsr/bsr.go"),("DotFile","gen/golang/gll/sppf/sppf.go")],
  ["ToSPPF(), DotFile output"],
  "monitor comparing SPPF graph and DOT text with the oracle's forest",
  "Graph equality with an SPPF built by the oracle; a DOT parser checks the file."),
P("C05","GLL syntax errors are real and include the furthest failure position",
  "When a generated GLL parser rejects an input it returns a non-empty list of errors, sorted furthest first, whose first entry is at the first token no sentence can continue with; each error names a token of the input, its line and column, and a set of expected tokens. No expected set is empty or contains the offending token.",
  ["inputs","programs"],"all grammars x all non-sentences",
  "No test checks error contents; the furthest failure is a statement over all wrong inputs.",
  ["gen/golang/gll/parser.go"],
  [("parseError and the sort of parse errors","gen/golang/gll/parser.go")],
  ["errors returned by parser.Parse, their String"],
  "monitor comparing the reported errors with viable prefixes computed by an oracle",
  "Inputs are mutated sentences, truncations, trailing garbage and illegal characters."),
P("C06","The generated lexer tokenises exactly as the token rules say",
  "For every set of token rules and every input, the generated lexer partitions the input into white space and tokens where each token is the prefix the rules' automaton recognises along the longest path, literals winning over named tokens; anything else becomes an error token, and the list ends with one end-of-input token. Type numbers, names and literals reported for a token agree with each other and with the grammar.",
  ["inputs","programs"],"all token rules x all inputs",
  "Tests cover single fixed rules; tokenisation is a statement over regular languages and strings, with overlapping classes, nested repetition and prefixes of other tokens.",
  ["lex/items/items.go","lex/items/event/event.go","lex/item/item.go","lex/item/pos/pos.go","gen/golang/lexer/lexer.go","gen/golang/token/token.go"],
  [("subset construction","lex/items/items.go"),("splitting of overlapping classes","lex/items/event/event.go"),("moves of regular items","lex/item/item.go"),("generated transition and accept functions","gen/golang/lexer/lexer.go")],
  ["lexer.New(..).Tokens of a generated lexer, token.Type.ID etc."],
  "monitor on real generated lexers vs a derivative-based regular expression oracle",
  "Random rule sets with overlapping classes; inputs drawn from the rules and mutated."),
P("C07","Suppressed tokens never reach the parser and change no verdict",
  "Tokens declared suppressed are absent from the token list seen by a parser, and inserting or removing suppressed tokens and white space between tokens never changes which other tokens are found or whether the input is accepted.",
  ["inputs","programs"],"all grammars with suppressed tokens x all inputs and layouts",
  "Only one test grammar has comments, in fixed places.",
  ["gen/golang/lexer/lexer.go","ast/lex.go"],
  [("removal of suppressed tokens","gen/golang/lexer/lexer.go")],
  ["lexer.Tokens and the result of the parser"],
  "metamorphic monitor over layouts plus the lexer oracle",
  "Same token strings rendered with many layouts."),
P("C08","Token positions, text and source excerpts are exact for all inputs",
  "For every input, including multi-byte characters, tabs, carriage returns and empty input, each token's extent delimits exactly its literal, and its line and column are those of its first character; tokens are ordered and disjoint. Reading from a file and from memory give the same tokens, and the text of every parse tree node is the source between its first and last token.",
  ["inputs"],"all inputs",
  "Tests use short ASCII inputs on one line.",
  ["gen/golang/lexer/lexer.go","gen/golang/token/token.go","gen/golang/gll/bsr/bsr.go"],
  [("GetLineColumn, GetString, NewFile","gen/golang/lexer/lexer.go"),("Literal, GetLineColumn","gen/golang/token/token.go")],
  ["token accessors, lexer.GetString, BSR text"],
  "monitor recomputing positions from the raw input",
  "Inputs mix tabs, newlines, multi-byte runes and invalid UTF-8."),
P("C09","Markdown input: exactly the fenced blocks are the source, in place",
  "When the input is markdown, exactly the contents of the fenced code blocks are tokenised, and every token keeps the line, column and literal it has in the markdown file; text outside fences has no influence on the tokens. This holds for gogll's own input and for generated lexers.",
  ["inputs"],"all markdown files",
  "The self-hosted grammar is the only markdown input tested.",
  ["gen/golang/lexer/lexer.go","lexer/lexer.go"],
  [("loadMd","gen/golang/lexer/lexer.go")],
  ["tokens of lexer.NewFile on an .md file"],
  "monitor comparing tokens of markdown files with tokens of the blanked-out text",
  "Random documents with adjacent, empty and unterminated fences."),
P("C10","Unicode classes and character sets match exactly their characters",
  "A character class or set in a token rule (letter, upcase, lowcase, number, any, not, ranges and escapes) accepts exactly the characters it denotes, for every code point of Unicode, alone and when classes overlap in one lexer state.",
  ["inputs","programs"],"all code points x class combinations",
  "Tests probe a few ASCII characters.",
  ["lex/items/event/event.go","gen/golang/lexer/lexer.go","util/runeset/runeset.go","ast/lex.go"],
  [("event splitting","lex/items/event/event.go"),("conditions of the generated lexer","gen/golang/lexer/lexer.go")],
  ["token found for every single code point"],
  "monitor sweeping every code point through generated lexers",
  "All 1.1 million code points for each class combination in the workload."),
P("C11","Generated LR(1) parsers accept exactly the sentences of LR(1) grammars",
  "For every grammar without LR(1) conflicts, the parsers generated with the Knuth and with the Pager construction terminate on every input and accept it if and only if it is a sentence of the grammar.",
  ["inputs","programs"],"all LR(1) grammars x all inputs x both constructions",
  "Tests use a few small grammars; merging of states is only wrong for grammars whose contexts interact.",
  ["lr1/pgm/states.go","lr1/knuth/states.go","lr1/items/items.go","lr1/states/state.go","lr1/action/action.go","gen/golang/lr1/parser/parser.go"],
  [("state merging","lr1/pgm/states.go"),("closure and contexts","lr1/states/state.go"),("parse loop","gen/golang/lr1/parser/parser.go")],
  ["Parse of a generated LR(1) parser"],
  "monitor on real generated parsers vs a span-fixpoint recogniser",
  "Random LR(1) grammar families whose contexts force or forbid merging."),
P("C12","LR(1) conflicts are reported iff the grammar is not LR(1)",
  "For every grammar and both constructions, conflicts are reported if and only if the grammar is not LR(1). Without conflict resolution such a grammar yields a report, exit status 1 and no parser; with it a parser is generated and the resolution is announced.",
  ["programs","configurations"],"all grammars x construction x resolution flag",
  "Tests have no grammar with a conflict that only context separates.",
  ["lr1/gen.go","lr1/action/action.go","lr1/action/conflict.go","lr1/pgm/states.go","lr1/knuth/states.go","cfg/cfg.go"],
  [("conflict detection","lr1/action/action.go"),("report and exit status","lr1/gen.go")],
  ["exit status, standard output, LR1_conflicts.txt"],
  "monitor of gogll runs vs a canonical LR(1) automaton built by an oracle",
  "Hundreds of grammars per run, half with conflicts."),
P("C13","LR(1) action functions run once per reduction, in order, with the right values",
  "A generated LR(1) parser calls the action function of each alternate exactly once per reduction of the reversed rightmost derivation, with the attributes of its symbols in order, and returns the value of the start production. Resolved conflicts prefer shift and the earlier production; an error returned by an action ends the parse with that error.",
  ["inputs","programs"],"all grammars x all inputs x failing action index",
  "Tests check one calculator-like grammar and no failing action.",
  ["gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/productionstable.go","gen/golang/lr1/ast/ast.go","lr1/action/action.go"],
  [("reduce step","gen/golang/lr1/parser/parser.go"),("production table","gen/golang/lr1/parser/productionstable.go"),("conflict resolution","lr1/action/action.go")],
  ["recorded calls of generated ast functions"],
  "offline checker of recorded action-call histories vs reductions of an oracle",
  "Recorded histories of every parse, with nil attributes and injected action failures."),
P("C14","Invalid grammars are rejected with a diagnostic, valid ones accepted",
  "For every input text gogll terminates without crashing: a text that violates the notation's rules (syntax errors, undeclared symbols, duplicate rules, token references before their definition, white space in string literals of syntax rules, repeated Unicode sets, and for GLL nonterminals that are never called) is rejected with exit status 1, a message that locates or names the offence, and no generated parser. The first syntax error reported is at the first token that cannot continue the text. Every valid grammar is accepted with exit status 0.",
  ["inputs","programs"],"all texts, valid and invalid",
  "Tests only feed valid grammars, except one or two.",
  ["sc/sc.go","ast/build.go","ast/lex.go","ast/syntax.go","main.go","cfg/cfg.go"],
  [("semantic checks","sc/sc.go"),("AST construction","ast/build.go")],
  ["exit status, output and files of gogll"],
  "monitor of gogll runs on valid, rule-violating and corrupted grammars",
  "Valid grammars, each with one injected violation of a known kind and place, and byte-level corruptions."),
P("C15","Generated code always compiles and is byte-for-byte reproducible",
  "For every accepted grammar and set of options, the generated Go code compiles, and running gogll again on the same grammar produces identical files, whatever was in the output directory before.",
  ["programs","histories","configurations"],"all accepted grammars x options x repeated runs",
  "Tests generate a few grammars once; nondeterminism of map iteration shows only across runs.",
  ["gen/golang","gen/golang/gll/parser.go","lex/items/items.go","symbols/symbols.go","gslot/gslot.go"],
  [("sorted symbol and state numbering","symbols/symbols.go, lex/items/items.go"),("templates","gen/golang")],
  ["generated files, go build"],
  "monitor comparing repeated runs byte for byte and compiling every output",
  "Options GLL, Knuth, Pager, BSR string elements; terminals with hostile characters."),
P("C16","gogll regenerates its own front end with the same behaviour",
  "Running gogll on its own grammar produces a front end that, built into gogll, generates byte-identical output for every grammar, and accepts and rejects the same texts as the committed one.",
  ["inputs","programs"],"all grammar texts",
  "No test closes the bootstrap loop.",
  ["gogll.md","lexer/lexer.go","parser/parser.go","parser/bsr/bsr.go","token/token.go","main.go"],
  [("bootstrapped front end","parser/parser.go, lexer/lexer.go")],
  ["output of the committed and of the regenerated gogll"],
  "differential monitor of gogll and its regenerated self",
  "Same outputs compared over random valid and corrupted grammars."),
P("C17","Generated parsers are safe to use from many goroutines at once",
  "Independent lexers and parsers of one generated package may run concurrently, and a finished parse result may be read concurrently: there is no data race and every result equals that of a sequential run.",
  ["schedules","inputs"],"all interleavings of concurrent parses",
  "No test runs two parses at once.",
  ["gen/golang/gll/parser.go","gen/golang/gll/bsr/bsr.go","gen/golang/lexer/lexer.go","gen/golang/lr1/parser/parser.go","gen/golang/gll/symbols/symbols.go","gen/golang/gll/slots/slots.go"],
  [("package-level tables are read-only","generated slot, symbols, token and action tables")],
  ["race detector, results per goroutine"],
  "Go race detector on concurrent parses plus comparison with sequential results",
  "GLL and LR(1) parsers under the race detector, with yields and many goroutines."),
P("C18","gogll writes only its documented outputs, where it was told to",
  "Generating Go, gogll creates or changes only the documented files below the output directory (by default the grammar's), for every option, path form and previous content of the directory: nothing at all when it rejects the text for a syntax or semantic error, and no parser and no AST when it rejects the grammar for LR(1) conflicts or an uncalled production. Old content of an output is replaced completely. User-edited LR(1) AST code is never overwritten unless that is requested.",
  ["configurations","histories"],"all options, path forms and existing directory contents",
  "Tests never look at which files appear or survive.",
  ["cfg/cfg.go","main.go","gen/golang/lr1/lr1.go","gen/golang/lr1/ast/ast.go","lr1/gen.go"],
  [("base directory","cfg/cfg.go"),("guard on ast/ast.go","gen/golang/lr1/lr1.go")],
  ["directory trees before and after runs"],
  "monitor diffing whole directory trees around gogll runs",
  "Option and path-form matrix with pre-existing user files."),
P("C19","The verbose FIRST, FOLLOW and slot reports state the defined sets",
  "For every grammar, the FIRST and FOLLOW sets written in verbose mode are exactly the sets of the textbook definition, and the slot and symbol lists contain every slot and symbol of the grammar exactly once.",
  ["programs","configurations"],"all grammars",
  "No test reads these files beyond fixed FIRST sets of one grammar.",
  ["frstflw/frstflw.go","gen/firstfollow/firstfollow.go","gen/slots/slots.go","gen/symbols/symbols.go","gslot/gslot.go"],
  [("fixpoint of FIRST and FOLLOW","frstflw/frstflw.go"),("slot enumeration","gslot/gslot.go")],
  ["first_follow.txt, grammar slots and symbols files"],
  "monitor comparing verbose reports with sets computed by an oracle",
  "Random and curated grammars with nullable and mutually recursive symbols."),
P("C20","LR(1) errors name the first offending token and what was expected",
  "For every rejected input, a generated LR(1) parser reports the line, column and literal of the first token no sentence can continue with, and a list of expected tokens that contains every token that could have continued and not the offending one; with the Knuth construction the list is exact. The error of an action function is reported at the token following the reduced phrase.",
  ["inputs","programs"],"all LR(1) grammars x all non-sentences x failing action index",
  "No test checks an LR(1) error.",
  ["gen/golang/lr1/parser/errors.go","gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/actiontable.go","lr1/action/action.go"],
  [("newError","gen/golang/lr1/parser/parser.go"),("Error printing","gen/golang/lr1/parser/errors.go")],
  ["error returned by Parse"],
  "monitor comparing error reports with the oracle's canonical LR(1) automaton",
  "Mutated sentences for hundreds of LR(1) grammars, both constructions."),
P("C21","The LR(1) state, item and conflict reports describe the automaton",
  "For every LR(1) grammar or non-LR(1) grammar accepted with -resolve_conflicts, LR1_states.txt (-v) is a deterministic automaton whose states are closed item sets; with -knuth it is isomorphic to the canonical LR(1) collection; otherwise every canonical state is represented by a state with the same core and at least its lookaheads, none beyond LALR, and there are at most as many states as canonical ones. Its actions are those its items ask for, shift before reduce and the earlier production first. CFG_items.txt lists every LR(0) item once with the symbol after the dot. LR1_conflicts.txt lists every conflict of the automaton, with its state, symbol and rival actions, exactly once, and there is no such file after a run without conflicts, whatever an earlier run left in the directory.",
  ["programs"],"all context-free grammars x both constructions",
  "No test reads these files; the correspondence to the canonical collection ranges over all grammars.",
  ["lr1/gen.go","lr1/states/states.go","lr1/states/state.go","lr1/pgm/states.go","lr1/knuth/states.go","lr1/items/items.go","lr1/action/action.go"],
  [("Gen","lr1/gen.go"),("PGM states","lr1/pgm/states.go"),("Knuth states","lr1/knuth/states.go")],
  ["LR1_states.txt","LR1_conflicts.txt","CFG_items.txt"],
  "monitor that parses the report files and checks the reported automaton against an independent canonical LR(1) collection",
  "Hundreds of random grammars, LR(1) and not, both constructions."),
P("C22","lexfsa.txt is the automaton of the declared tokens",
  "With -v, lexfsa.txt states a complete automaton: taking in each state the first listed transition that matches, after every string a transition exists for a character exactly if some token or string literal can still go on with it, and the items with the dot at the end are exactly those of the tokens and literals that the string matches. Every transition leads to a listed state, no two states have the same items, and every state is the target of a transition.",
  ["inputs","programs"],"all token definitions x all strings of characters",
  "No test reads the file; the statement ranges over all strings and all of Unicode.",
  ["gen/lexfsa/lexfsa.go","lex/items/items.go","lex/items/event/event.go","lex/item/item.go","ast/lex.go"],
  [("Gen","gen/lexfsa/lexfsa.go"),("New","lex/items/items.go"),("GetOrdered","lex/items/event/event.go")],
  ["lexfsa.txt"],
  "monitor that reads the reported automaton and runs it in parallel with reference automata of the tokens",
  "Product of the reported and the reference automata over sampled alphabets, hundreds of random token definitions."),
P("C23","Generated lexers and parsers need no more than the documented time and space",
  "The work of a generated lexer grows linearly with the length of the input, that of a generated LR(1) parser and of a GLL parser of an LL(1) grammar linearly with the number of tokens, and that of any GLL parser at most with its third power, both in steps executed and in memory allocated, for sentences and for rejected inputs.",
  ["inputs","programs"],"all grammars and token definitions x unboundedly long inputs",
  "Tests parse a handful of short inputs and look at results only; growth shows only over families of ever longer inputs, for many shapes of grammar.",
  ["Readme.md","gen/golang/gll/parser.go","gen/golang/gll/bsr/bsr.go","gen/golang/lexer/lexer.go","gen/golang/token/token.go","gen/golang/lr1/parser/parser.go"],
  [("descriptor, CRF and pop sets","gen/golang/gll/parser.go"),("BSR set","gen/golang/gll/bsr/bsr.go"),("scan","gen/golang/lexer/lexer.go"),("stack and Parse","gen/golang/lr1/parser/parser.go")],
  ["executed blocks","allocated bytes"],
  "monitor that counts executed blocks and allocated bytes of instrumented generated code over families of growing inputs",
  "About 200 generated parsers and lexers and 1200 input families per quick run; work inside the standard library is seen only as allocation."),
P("C24","A failed or interrupted write never passes for a successful run",
  "When gogll exits with 0, every file it has to write is there and complete, whatever the file system did: if an output or its directory cannot be created, the device is full or a write is cut short at any byte, gogll fails and names the file. A grammar that cannot be read fails likewise, without output. After an interruption at any point (gogll killed, any output missing, stale or cut short) the next run makes all outputs byte-for-byte what an undisturbed run writes; only an LR(1) AST file that exists is left to the user.",
  ["fault_sequences","crash_points","histories"],"all outputs, write faults at every byte and points of interruption",
  "Tests never make a write fail or interrupt a run.",
  ["gen/golang/token/token.go","gen/golang/lexer/lexer.go","gen/golang/gll/parser.go","gen/golang/lr1/lr1.go","lr1/gen.go","gen/symbols/symbols.go","gen/slots/slots.go","gen/firstfollow/firstfollow.go","gen/lexfsa/lexfsa.go","main.go"],
  [("LR(1) reports","lr1/gen.go"),("lexer output","gen/golang/lexer/lexer.go"),("slot report","gen/slots/slots.go")],
  ["exit codes, messages and directory trees under injected write faults, size limits, kills and residues"],
  "monitor comparing outputs under file system faults and interruptions with those of undisturbed runs",
  "A directory, a full device or a file for a directory at every output; size limits; SIGKILL; constructed residues."),
P("C25","The generated symbol and slot tables state the grammar",
  "For every grammar, the symbol and slot packages of the generated GLL parser answer exactly from the grammar: the nonterminals and terminals are its symbols, each once and of the right kind; IsNT and ToNT recognise exactly the nonterminal names and convert them back and forth, ToNT panics on any other; GetAlternates lists the alternates of a nonterminal in the order of the grammar; GetLabel has exactly one label for each alternate and position, panics for any other, and the head, alternate, position, symbols, index, end-of-rule flag and text of each label are those of its slot; Symbols.Equal holds exactly for equal lists of symbols.",
  ["inputs","programs"],"all grammars x all names, alternates, positions and lists of symbols",
  "Tests use the tables of a few small grammars through the parser only; collisions of names and two-digit numbers need many grammars and questions.",
  ["gen/golang/gll/symbols/symbols.go","gen/golang/gll/slots/slots.go","gslot/gslot.go","symbols/symbols.go"],
  [("symbol tables","gen/golang/gll/symbols/symbols.go"),("slot tables","gen/golang/gll/slots/slots.go"),("slots","gslot/gslot.go")],
  ["answers of the generated tables"],
  "monitor that puts every question to the tables of running generated packages and compares the answers with the grammar",
  "About 480 grammars, 22000 names, 40000 answers per quick run."),
P("C26","The generated Rust code lexes and parses like the grammar says",
  "For every grammar whose names, literals and characters are plain ASCII text without quotes, backslashes and braces, and whose tokens use no UnicodeSet, gogll -rust generates code that compiles, the same bytes in every run: a lexer that yields the tokens of the definitions, with their texts, extents, lines and columns, from a string, a text file or the code blocks of a markdown file, and ends on every input; a GLL parser that accepts exactly the sentences, delivers exactly their derivations, says if they are ambiguous, and reports at least one error, at a token it does not expect, for anything else; or, with -knuth or -pager, an LR(1) parser that calls the AST functions of a right derivation in order, returns the last value, and ends with the error of an AST function or at the first wrong token.",
  ["inputs","programs"],"all grammars of plain text x all inputs",
  "No test generates Rust code, compiles or runs it.",
  ["gen/rust/lexer/lexer.go","gen/rust/token/token.go","gen/rust/gll/parser/parser.go","gen/rust/gll/bsr/bsr.go","gen/rust/gll/slot/slot.go","gen/rust/lr1/parser/parser.go"],
  [("lexer template","gen/rust/lexer/lexer.go"),("GLL parser template","gen/rust/gll/parser/parser.go"),("BSR template","gen/rust/gll/bsr/bsr.go"),("LR(1) parser template","gen/rust/lr1/parser/parser.go")],
  ["tokens, positions, forests, errors and AST function calls of running Rust programs"],
  "monitor over generated Rust programs, compiled with overflow checks and debug assertions, against reference lexer, forests and LR(1) automaton",
  "About 170 programs and 13000 inputs per quick run; the runtime dependency lazy_static is replaced by a stand-in, for the crate is not available offline."),
]
NA={}
exec(open(os.path.join(V,'tools','na.py')).read())
with open(V+'/properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x['p'])+'\n')
for x in L:
    assert len(x['p']['title'])<=80,x['p']['title']
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[])
for x in L:
    i=x['p']['id']
    if i in NA: m['not_applicable'].append(dict(property=i,reason=NA[i])); continue
    m['checks'].append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",technique="runtime monitoring: "+x['tech'],level="exploration",level_note=x['note']))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
