#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
EX="src/parser/expression/mod.rs"; AT="src/parser/atom/mod.rs"; PA="src/parser/mod.rs"; LIB="src/lib.rs"
PEG="src/peg/mod.rs"; RU="src/peg/rules.rs"; P2C="src/peg/peg2code.rs"; GC="src/peg/gcode.rs"; AST="src/ast/mod.rs"; FL="src/ast/flat.rs"

p("P01","A text is accepted exactly when the grammar matches all of it",
"For every rule set without left recursion and every text, parsing succeeds if and only if the rule `main`, read with PEG semantics (sequence; ordered choice that keeps the first alternative that matches; greedy repetition that gives nothing back; negation as a lookahead that consumes nothing; literal, set of chars, any char, end of file; reference to another rule), matches the whole text. Matching only a prefix of the text is a failure. An alternative that failed, the last failed attempt of a repetition, and a negation never move the position from which parsing goes on.",
["programs","inputs"],"all rule sets (without left recursion) and all texts",
"The tests try a dozen fixed grammars on a few texts each; backtracking and commitment depend on how operators nest and on what was consumed before, so they have to hold for every combination of operators and text.",
[EX,AT,LIB],[("one function per operator over a cloned status",f"{EX}: parse_expr, parse_and, parse_or, parse_not, parse_repeat"),("char cursor",f"{AT}: get_char, parse_literal, parse_match, parse_dot, parse_eof"),("full input test",f"{LIB}: parse_with_debug")],
["dynparser::parse(text, rules): Ok or Err"],[dict(name="parsing position",meaning="how much of the text has been consumed",where=f"{PA}: Status")])

p("P02","The syntax tree is exactly the derivation that matched",
"When parsing succeeds, the tree returned has one rule node, with the rule's name, for every rule applied on the successful path, nested and ordered as the rules were applied, with `main` as root, and one value leaf, with the text it matched, for every literal, set of chars or any-char matched (an end of file gives an end-of-file leaf). Nothing from abandoned alternatives, failed repetition attempts or negations appears on it, and nothing that matched is missing or duplicated. Repetitions, sequences and choices add no nodes of their own.",
["programs","inputs"],"all rule sets (without left recursion) and all texts they match",
"Almost every test only looks at is_ok(); no test compares a tree after backtracking out of a partly matched alternative, or with nested repetitions.",
[EX,AT],[("nodes accumulated along the successful branch",f"{EX}: parse_and, parse_repeat, parse_or"),("rule node built on return",f"{EX}: parse_rule_name")],
["the ast::Node returned by dynparser::parse"])

p("P03","The leaves of the syntax tree reproduce the parsed text",
"When parsing succeeds, concatenating the values of the leaves of the tree from left to right gives exactly the parsed text: no char is lost, duplicated, reordered or invented, whatever chars (newlines, multibyte, control) the text has. This still holds after compacting the tree, after flattening it, and after passing through any of its rules.",
["programs","inputs"],"all rule sets, all texts, all lists of rule names",
"No test relates the leaves to the text; it must hold for every grammar shape and every char.",
[EX,AT,AST,FL],[("one leaf per matched atom",f"{AT}: ok! macro"),("transformations keep values",f"{AST}: compact, pass_through_except; {FL}: flatten")],
["leaves of dynparser::parse(..).unwrap(), and of its compact(), flatten(), pass_through_except()"])

p("P04","Repetitions match greedily between their minimum and maximum",
"An expression repeated with a minimum and an optional maximum (min <= max) matches as many consecutive times as it can, never more than the maximum, and fails if it cannot reach the minimum; the tree holds exactly that many matches. Optional, zero-or-more and one-or-more are the (0,1), (0,unbounded) and (1,unbounded) cases. When unbounded and with the minimum reached, a match that consumes nothing is the last one.",
["programs","inputs"],"all bounds, all repeated expressions, all numbers of available matches",
"Tests try (0,inf), (3,inf), (0,3), (0,1) on one text; a counter error shows only on particular combinations of bounds and available matches, also (0,0) and min = max.",
[EX],[("iteration counter against min and max",f"{EX}: parse_repeat"),("bounds from the peg symbols",f"{PEG}: consume_rep_or_neg")],
["dynparser::parse with rep! rules: result, number of nodes, remaining text"])

p("P05","Error coordinates are consistent with the text being parsed",
"Every error from parsing a text (including the parser error got for a wrong peg grammar) has a position inside the text, measured in chars: the row is the number of newlines before it, the column the number of chars since the last newline or carriage return, and the start of line the char after the last newline. The line shown before the error is the text from the start of line up to the position, and the line shown after is the text from the position up to the end of that line. This holds for any mix of line endings and of multibyte chars.",
["programs","inputs"],"all rule sets, all texts that are not accepted",
"Tests check row and column of a few successful steps on ASCII text; no test looks at the coordinates of an error, at several lines, \\r\\n or multibyte chars.",
[PA,AT],[("position updated on every char",f"{AT}: get_char"),("error built from the status",f"{PA}: Error::from_status")],
["pos.n, pos.row, pos.col, pos.start_line, line_before, line_after of the Err of dynparser::parse and rules_from_peg"],
[dict(name="Possition",meaning="chars consumed, row, column, start of line",where=PA)])

p("P06","An error(...) reached while parsing is always the error reported",
"When parsing reaches an error constructor outside any negation, parsing fails with exactly that description, with critical priority, at the position where it was reached; no later alternative, repetition or enclosing rule recovers from it or replaces it by another error. An error constructor that is not reached has no effect, and one reached inside a negation only makes the negated expression fail.",
["programs","inputs"],"all rule sets with error constructors at any place, all texts",
"Two doc tests use the unbalanced parenthesis grammar; propagation has to work through every nesting of choice, repetition, sequence and rules.",
[EX,AT,PA],[("critical priority",f"{AT}: parse_error"),("critical errors are not alternatives",f"{EX}: parse_or, parse_repeat")],
["descr, priority and pos of the Err of dynparser::parse"])

p("P07","Reaching an undefined rule is always reported",
"When parsing reaches, outside any negation, a reference to a rule that the rule set does not define (also when `main` itself is missing), parsing fails with a critical error whose description names that rule, at the position where it was reached; it is never treated as an ordinary mismatch that an alternative or a repetition could hide. References that are not reached do not matter.",
["programs","inputs"],"all rule sets with undefined references at any place, all texts",
"No test has an undefined rule.",
[EX],[("Missing rule error",f"{EX}: parse_rule_name"),("critical errors are not alternatives",f"{EX}: parse_or, parse_repeat")],
["descr, priority and pos of the Err of dynparser::parse"])

p("P08","A failure is reported at the alternative that got furthest",
"When all the alternatives of a choice fail with normal errors, the error reported is the one of the alternative that examined the text furthest (the last of them on a tie). When the rules match only a prefix of the text, the failure is the error that stopped the last repetition ended on the successful path if there is one, and otherwise it is reported at the end of the prefix. In any other case it is the error of the expression that failed, positioned after the last char it examined.",
["programs","inputs"],"all rule sets, all texts that are not accepted",
"No test looks at which error is reported, only that there is one.",
[EX,LIB,AT],[("deepest error",f"{EX}: parse_or"),("potential error",f"{EX}: parse_repeat, {LIB}: parse_with_debug")],
["pos.n, priority and descr of the Err of dynparser::parse"],
[dict(name="potential error",meaning="error that stopped the last repetition",where=f"{PA}: Status")])

p("P09","Debug parsing changes nothing but the trace of rules",
"Parsing with debug information gives, for every rule set and text, the same tree or the same error (position, description, lines and priority) as parsing without it. The list of rules of an error is empty without debug; with it, the list has the rules entered on the path that led to the error, in order, starting with `main`, and without those of abandoned alternatives.",
["programs","inputs"],"all rule sets, all texts",
"No test calls the debug entry point.",
[LIB,EX,PA],[("trace_rules flag",f"{PA}: Status::init_debug, push_rule; {EX}: parse_rule_name")],
["dynparser::parse and dynparser::parse_debug on the same arguments; parsing_rules"])

p("P10","The result of an operation never depends on earlier operations",
"Parsing, debug parsing, building rules from a peg text, generating code and transforming trees are pure: whatever sequence of operations, successful or failed, was done before with the same or other rule sets, texts and trees, an operation gives the same result as when it is the first one. Rule sets and trees are not modified by being used.",
["histories"],"all sequences of operations over shared rule sets, texts and trees",
"Each test runs one grammar; none interleaves several grammars and texts nor repeats an operation after others.",
[LIB,EX,PEG],[("state only in the status created by each call",f"{LIB}: parse_with_debug; {PEG}: rules_from_peg")],
["results of every operation in a history against the results in isolation"])

p("P11","Adding and merging rules behaves as a map of names to expressions",
"After any sequence of creations, additions and merges, a rule set defines exactly the names added or merged, and parsing uses the resulting definitions in every rule that refers to them, also if defined before. Adding a name already defined replaces its definition; merging adds the rules of the other set, keeping the receiver's definition for names defined by both.",
["histories"],"all sequences of add and merge, interleaved with parsing",
"Two doc tests add or merge one new rule; none has a collision, a forward reference or more than one step.",
[EX,LIB],[("map insertion and chained collection",f"{EX}: SetOfRules::add, SetOfRules::merge"),("rules! macro",LIB)],
["names of the set; dynparser::parse with the set after each step"],
[dict(name="rules",meaning="map from name to expression",where=f"{EX}: SetOfRules")])

p("P12","Every call returns a result: no panic, crash or endless loop",
"For every rule set without left recursion (also with repeated or optional expressions that match nothing, undefined rules, or empty choices), and every text, parsing ends with a tree or an error; for every text whatsoever given as a peg grammar, building the rules ends with rules or an error; and code generation, tree transformations and tree navigation end with a result. No call panics, loops for ever or exhausts memory, as long as the nesting of rules is small enough for the stack.",
["programs","inputs"],"all rule sets without left recursion, all texts, all peg texts, all trees",
"Tests use well formed ASCII grammars and texts; slicing, indexing and looping errors appear on unusual chars, empty matches and truncated grammars.",
[EX,PA,PEG,AST,FL,GC],[("progress of unbounded repetitions",f"{EX}: parse_repeat"),("checked access to nodes",f"{FL}: peek_first_node, split_first_nodes")],
["return of every public function"])

p("P13","A peg text builds rules with the documented structure",
"For every text in the documented peg notation, the rules built are the ones it denotes: every rule definition under its written name (dots included, also inside modules), choice binding looser than sequence, the suffixes ? * + and the prefix ! applying to the atom or parenthesis next to them, parentheses grouping, choices and sequences keeping the written order. A name defined again has its last definition, but one in a module never replaces one written out of it, nor one of an earlier module. Parsing with them gives the same results as with the same rules built by hand.",
["programs"],"all peg texts in the notation",
"Tests load about twenty grammars and mostly check that one text is accepted; precedence and grouping have to hold for every combination of operators.",
[PEG,RU],[("peg text parsed with the built-in rules, then LL(1) over the flat tree",f"{PEG}: rules_from_peg, consume_*"),("built-in rules",RU)],
["rules_from_peg(text).unwrap() against rules built by hand: structure, and dynparser::parse on both"])

p("P14","Exactly the texts in the peg notation are accepted as grammars",
"Building rules from a text succeeds if and only if the text is a grammar in the documented notation (one or more rules or modules, each ended by an end of line; literals, sets, dots, names, groups, suffixes, negations, error constructors, comments). A text that is not is rejected with an error, never read as some other grammar; and no text that is in the notation is rejected.",
["programs"],"all texts",
"Six tests have a wrong grammar. Acceptance has to be right for every text.",
[PEG,RU,P2C],[("built-in rules for the notation",RU),("conversion to rules, accepting whatever the notation allows",f"{PEG}: consume_*")],
["rules_from_peg(text): Ok or Err"])

p("P15","Literals and sets of chars written in peg match exactly what they denote",
"A literal in single quotes matches its chars verbatim, backslashes included; in double quotes, \\n \\r \\t \\\\ \\\" denote the usual chars, \\0xHH (upper case hex) denotes the char with that code, and any other char denotes itself; empty literals match the empty text, and the text of error(...) is read with the same rules. A set [...] matches one char that is either in its list or inside one of its ranges, both ends included, and nothing else.",
["programs","inputs"],"all literals and sets, all chars",
"The tests use plain letters, one range and one hex escape in a doc test; decoding depends on each pair of neighbouring chars.",
[PEG,AT,RU],[("decoding of literals",f"{PEG}: consume_literal_esc, consume_esc_char, consume_hex_char, consume_literal_no_esc"),("decoding of sets",f"{PEG}: consume_match, consume_mchars, consume_mbetween"),("matching",f"{AT}: parse_literal, parse_match")],
["expressions built by rules_from_peg, and dynparser::parse with them"])

p("P16","Layout and comments never change the meaning of a peg text",
"Wherever the notation allows non significant space, any amount of spaces, ends of line (\\n, \\r\\n or \\r), line comments and block comments, whatever they contain, gives the same rules as the plain layout. This includes a comment at the end of a rule, between rules, between the alternatives of a choice, inside parentheses, and before the first and after the last rule.",
["programs"],"all peg texts and all layouts of each",
"The comments in the tests and in the grammar of the peg notation are at two or three fixed places.",
[RU,P2C,PEG],[("space rules",f"{RU}: _, _1, _eol, eol, comment, line_comment, mline_comment"),("space nodes pruned",f"{PEG}: rules_from_peg")],
["rules_from_peg of both texts"])

p("P17","The published grammar of the notation is the one that is used",
"The rules printed by the program that generates the rules for the peg notation from its own peg text, once compiled, accept exactly the same texts as building rules from a peg text does, reject the others with the same parser error, and give the same trees as those same rules written in the notation and loaded at run time. Put in the place of the rules in use, they change nothing: any text gives the same rules or the same error. Regenerating the code from the rules loaded gives the same rules again (a fixed point).",
["programs"],"all texts taken as grammars",
"A doc test prints the rules, and nothing compares them with the ones built in; a change on one side, or an error in literals or code generation, leaves both out of step.",
[P2C,RU,GC,PEG],[("grammar text",f"{P2C}: text_peg2code"),("generated rules pasted in",RU),("generator",GC)],
["output of peg2code::print_rules2parse_peg, compiled; rules_from_peg"])

p("P18","Generated Rust code compiles and rebuilds the same rules",
"For every rule set, the generated Rust code, put inside the rules macro, compiles and evaluates to a rule set with the same names and the same expressions: every operator, bound, literal (any char: quotes, backslashes, control, multibyte), set, range, error text and rule name (operators nested no deeper than the compiler allows macros to nest). Parsing with it gives the same results.",
["programs"],"all rule sets",
"One doc test prints generated code without looking at it; the documented example is marked as ignored.",
[GC,LIB],[("one writer per kind of expression",f"{GC}: expr2code, atom2code, match_rules2code, repeat2code"),("macros that read it",LIB)],
["peg::gcode::rust_from_rules(rules), compiled"])

p("P19","Compacting joins adjacent values and nothing else",
"Compacting a tree replaces every maximal run of consecutive value leaves among the children of a node by one value with their concatenation, at every level, and keeps everything else (rules, their names and order, end-of-file leaves, empty rules) as it was. Values separated by a rule or end-of-file node are not joined, and compacting again changes nothing.",
["inputs"],"all trees",
"One doc test has three values under one rule.",
[AST],[("fold joining with the previous value",f"{AST}: compact")],["ast::Node::compact"])

p("P20","Pruning removes exactly the named rules with their contents",
"Pruning a tree with a list of names removes every rule node below the root whose name is in the list, with everything it contains, at any depth, and keeps all the other nodes with their values and order. The root stays, names not in the tree and repeated names have no effect, and pruning again changes nothing.",
["inputs"],"all trees and lists of names",
"One doc test prunes two empty sibling nodes.",
[AST],[("filter on children",f"{AST}: prune")],["ast::Node::prune"])

p("P21","Passing through keeps the named rules and reconnects the rest",
"Passing through a tree except for a list of names removes every rule node below the root whose name is not in the list and puts its children, processed the same way, at its place in the same order; the root, the rules in the list, and all values and end-of-file leaves are kept in order. Applying it again changes nothing.",
["inputs"],"all trees and lists of names",
"One doc test has a single chain of nodes without values.",
[AST],[("children spliced in the parent",f"{AST}: pass_through_except")],["ast::Node::pass_through_except"])

p("P22","Flattening is lossless",
"Flattening a tree gives its nodes in depth-first order: each rule as a begin mark and an end mark with its name around its contents, correctly nested, each value and each end of file at its place. The tree can be rebuilt from the flat list, and two different trees never have the same flat list.",
["inputs"],"all trees",
"One doc test with one tree.",
[FL],[("recursive fold",f"{FL}: flatten")],["ast::Node::flatten"])

p("P23","Tree navigation consumes exactly what was asked for, or fails",
"Every helper to navigate lists of nodes (plain or flattened) succeeds if and only if the first node (or the list) is what was asked for, in kind, name and value, and then returns that name, value or children and exactly the rest of the list, sharing the original nodes; otherwise it returns an error, also on empty lists. Consuming step by step visits every node once and in order.",
["inputs","histories"],"all lists of nodes, all sequences of helper calls",
"Doc tests have one call of each helper, nearly always successful.",
[AST,FL],[("slice splitting",f"{AST}, {FL}: split_first_nodes, consume_*, peek_first_node, get_*")],
["return value of each function of ast and ast::flat"])

p("P24","Every char is matched as one char and by exactly the right atoms",
"For every Unicode char: any-char matches it as one char; a literal matches a text if and only if both are the same chars; a set matches it if and only if it is in the list or between the ends of a range, ends included; end of file matches only where no char is left. Matching a char advances the position by one, whatever its size in bytes.",
["inputs"],"all Unicode scalar values, at any place of the text",
"The tests only have ASCII letters and digits.",
[AT,PA,LIB],[("iteration by chars",f"{AT}: get_char, parse_match, parse_dot, parse_literal, parse_eof")],
["dynparser::parse with atoms: result, leaf and error position"])

p("P25","Rules written with the macros are the expressions written",
"For every nesting of rules!, lit!, error!, dot!, eof!, ematch! (with from/to bounds or with a vector), and!, or!, not!, rep! (with and without maximum) and ref_rule!, of any length (empty lists too), with literals or variables of the caller as arguments, called by name or by path, the set of rules has exactly the rules written, and each one is the expression written, with its operators, bounds, texts, sets and ranges, in the order written. Each argument is evaluated once. When a name is written twice the last one stays.",
["programs"],"all uses of the macros",
"The tests use short lists, at most a few bounds, and literals as arguments; what a macro expands to depends on which arm matches, on how many items there are and on which names the caller has in scope.",
[LIB,EX,AT],[("macros",f"{LIB}: rules!, lit!, error!, dot!, eof!, ematch!, and!, or!, not!, rep!, ref_rule!"),("constructors called by them",f"{EX}: SetOfRules::add, MultiExpr::new, RepInfo::new; {AT}: MatchRules::init")],
["the value of rules!{...}: names and expressions"])

p("P26","Calls done by several threads at once give the same as done alone",
"Rule sets, expressions, trees and errors can be sent to and shared by threads. Whatever calls (parsing with or without debug, building rules from peg texts, generating code, transforming trees, building and merging rules) several threads do at the same time, on their own data or on the same rule sets, texts and trees, and in whatever way they are interleaved, each call gives the result it gives when nothing else is running.",
["schedules","histories"],"all interleavings of all calls on any number of threads",
"Every test runs its calls on one thread; shared state (a cache, a counter, a flag, a buffer) would be wrong only in a particular interleaving.",
[LIB,PA,EX,PEG,GC,AST],[("all the state of a parsing travels in Status",f"{PA}: Status"),("rules are only borrowed while parsing",f"{LIB}: parse_with_debug"),("context of the notation",f"{PEG}: Context")],
["what each call returns"])

p("P27","Calls keep no memory once their results are dropped",
"Once a call (parsing with or without debug, building rules from a peg text, building, adding and merging rules, generating code, transforming and navigating trees), successful or failed, has been done, doing it again any number of times and dropping its results and errors leaves no more memory in use than before; and doing it with ever different inputs doesn't make the memory in use grow without limit.",
["histories","inputs"],"all calls, inputs and sequences of calls",
"No test looks at memory; a leak shows only on some paths (an error, an abandoned alternative, a lookahead) and only after many calls.",
[LIB,PA,EX,PEG,AST,FL],[("everything is owned by the status of the call or by its result",f"{PA}: Status, Error; {AST}: Node"),("context of the notation",f"{PEG}: Context")],
["heap in use before and after the calls"])

p("P28","The work done grows as the PEG steps needed, not faster",
"For every rule set without left recursion and every text, the work done by parsing is at most proportional to the steps of evaluating the rules as PEG says, trying each expression once each time it is reached: no expression is evaluated again for the same arrival, however they are nested, and a step costs no more than the line it is at (its text goes into the error) and the rules, however long the text is and however much of it has been read; the stack in use grows with how many expressions are inside of each other, not with the text. Building rules from a peg text does work at most proportional to the length of the text, accepted or not, however its groups are nested (a step at a line costs no more than the line), and the stack in use grows with how many groups are inside of each other, not with the length of sequences, choices, literals or the grammar. Transforming a tree, and generating code, does work proportional to the size of the tree and of the rules (at most moving what is inside, or copying its text, once more for each level).",
["programs","inputs"],"all rule sets, texts, peg texts and trees",
"Trying something twice is invisible on the small grammars of the tests, and exponential when nested; it must hold for every nesting of operators, rules and groups.",
[EX,PEG,RU,AST,FL],[("each operator evaluates its parts once",f"{EX}: parse_and, parse_or, parse_not, parse_repeat, parse_rule_name"),("a pass over the flat nodes",f"{PEG}: consume_*"),("one pass over the tree",f"{AST}: compact, prune, pass_through_except; {FL}: flatten")],
["operations of the memory allocator done by each call, bytes asked for, bytes of the stack, and processor time of the longest ones"])

p("P29","Errors say what was expected, and keep it up to the user",
"The description of the error of a failed parsing says what was expected where it failed: for a literal, its text; for a set, its chars and the ends of all its ranges; and failures of different kinds (any char, end of file, negation, text left after the rules, other literals and sets) have different descriptions. A peg text that is not a grammar is rejected with an error that leads to the one of the parser. Pushing descriptions on an error, any number of times, keeps the previous error whole under them; displaying it shows all of them, the last pushed first, separated by ' > ', and then the cause: for an error of the parser its description, position and lines, for one of the tree its texts.",
["inputs","programs","histories"],"all rule sets and texts, all peg texts, all sequences of descriptions pushed",
"The tests only look at the text of error(...) and never display an error; which part is lost depends on the length, the chars, the number of ranges or of levels.",
[AT,PA,PEG,LIB],[("description of each atom",f"{AT}: parse_literal, parse_match, parse_dot, parse_eof"),("chain of errors",f"{PEG}: Error, ipush, From, Display")],
["descr of the Err of dynparser::parse; peg::Error of rules_from_peg: its links and Display"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
