#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the list of the properties and of their checks)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BACK = "src/liboak/back/compiler/"
MID = "src/liboak/middle/"

P = []


def prop(id, title, statement, over, quant, why, files, state, mechanism, observe, technique=None, level="model_checking", note="", hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, state=state,
                  mechanism=mechanism, observe=observe, technique=technique, level=level, note=note, hook=hook, na=na))


TRUST = ("Trusted: TLC, rustc, the emission of the concrete syntax of generated grammars, the runner that prints what the public API shows. "
         "Outside of the explored grammars and inputs nothing is claimed.")

prop("C01", "Generated parsers recognise exactly the language of the grammar",
     "For every accepted grammar, rule and input, the generated function succeeds exactly when the parsing-expression-grammar semantics of the "
     "rule succeeds (ordered choice with full backtracking, greedy and possessive repetitions, predicates that consume nothing, literals and "
     "character classes matched on whole characters), and a success stops at exactly the position of that semantics. "
     "The result is a full match when the whole input is consumed, a partial match when input remains, a failure otherwise.",
     ["inputs", "programs"], "every well-formed grammar, every rule, every input string, from every start position",
     "The tests compare pass/partial/fail for some dozens of grammars and inputs; operators interact in unboundedly many nestings.",
     [BACK + "choice.rs", BACK + "sequence.rs", BACK + "repeat.rs", BACK + "optional.rs", BACK + "syntactic_predicate.rs", BACK + "str_literal.rs",
      BACK + "character_class.rs", BACK + "any_single_char.rs", BACK + "non_terminal.rs"],
     [("position", "where the next character is read", "runtime/src/parse_state.rs ParseState.current"),
      ("failure flag", "the expression just tried failed", "runtime/src/parse_state.rs ParseState.failed")],
     [("backtracking", BACK + "choice.rs, optional.rs, repeat.rs: mark / restore"), ("matching", BACK + "str_literal.rs, character_class.rs")],
     ["success flag, position and result class of every generated parse and recognize function"],
     technique="TLA+ small-step machine model-checked against a TLA+ big-step PEG semantics (TLC), then conformance of recorded runs of generated parsers to that semantics",
     note="TLC explores all grammars of small scopes and all short inputs on the machine; thousands of runs of the real generated code per check are compared with the specification. " + TRUST)

prop("C02", "Parser and recognizer of a rule agree",
     "For every accepted grammar, rule and input, the parser and the recognizer generated for the rule agree on success or failure, on the position "
     "where a success stops, on the farthest failure position and on the set of expected items reported there. The recognizer builds no value "
     "other than () and calls no semantic action.",
     ["inputs", "programs"], "every accepted grammar, rule and input",
     "Two functions are generated by two code paths for each rule; the tests never compare them on inputs with values, loops and backtracking.",
     [BACK + "mod.rs", BACK + "rule.rs", BACK + "repeat.rs", BACK + "optional.rs", BACK + "choice.rs", "src/liboak/back/context.rs"],
     [("parser/recognizer mode", "an expression without value is compiled as a recognizer inside a parser", BACK + "mod.rs parser_compiler / recognizer_compiler")],
     [("recognizers and parsers of each operator", BACK + "mod.rs")],
     ["pairs of runs of parse_r and recognize_r on the same input"],
     technique="TLA+ machine with a parser and a recognizer mode checked by TLC (RecognizerIsSilent, EndsRight in both modes); pairs of recorded runs checked against the specification and each other",
     note="Pairs of runs on generated and on exhaustively enumerated small grammars. " + TRUST)

prop("C03", "The value of a parse is the one described by the matched expressions",
     "On success the parser returns the value defined by the matched expressions: the characters actually read, tuples in left-to-right order with nested "
     "sequences flattened, a vector with one element per iteration in order, Some exactly when the optional part matched, the value of the branch that matched, "
     "the result of an action for its operand (boxed when asked), nothing for literals, predicates and expressions annotated with a unit type. "
     "Values of abandoned branches or iterations never appear in it.",
     ["inputs", "programs"], "every accepted grammar with values, every input it succeeds on",
     "The tests check the value of a few grammars only; the generated code threads values through scopes, marks and branches in all nestings.",
     [BACK + "choice.rs", BACK + "repeat.rs", BACK + "optional.rs", BACK + "sequence.rs", BACK + "semantic_action.rs", BACK + "value.rs", "src/liboak/back/context.rs"],
     [("free variables", "the variables that the values of an expression are bound to", "src/liboak/back/context.rs Context.free_variables"),
      ("data", "the value of a successful state", "runtime/src/parse_state.rs ParseState.data")],
     [("scopes of variables", "src/liboak/back/context.rs open_scope / close_scope"), ("fresh names", "src/liboak/back/name_factory.rs")],
     ["the value returned by parse_r, as tokens"],
     technique="TLA+ value semantics; TLC checks the machine that threads the values; values returned by generated parsers checked against it by TLC",
     note="Values are compared completely (as token sequences). " + TRUST)

prop("C04", "Semantic actions are called exactly as the matching dictates",
     "During a parse, each semantic action is called exactly once each time its operand has just matched, in the order of these matches and with the values of that operand, "
     "including in branches that are abandoned later. No action is called when its operand failed, inside a predicate, a range or a unit-typed expression, nor by a recognizer.",
     ["histories", "inputs", "programs"], "every accepted grammar with actions, every input, full call history of each run",
     "Actions with side effects are observable at each call; the tests only use pure actions and look at final values.",
     [BACK + "semantic_action.rs", BACK + "syntactic_predicate.rs", BACK + "spanned_expr.rs", BACK + "mod.rs"],
     [("call history", "the sequence of calls of actions with their arguments", "generated code of semantic actions")],
     [("calls of actions", BACK + "semantic_action.rs"), ("no action in predicates", BACK + "mod.rs syntactic predicates are compiled as recognizers")],
     ["the log of the calls made by the actions of generated parsers"],
     technique="TLA+ machine with the log of calls as state (Monotonic, PredicatesAreSilent checked by TLC); recorded call logs of generated parsers checked against it",
     note="Complete call histories, including those of failed runs. " + TRUST)

prop("C05", "Rules get the documented types",
     "The Rust type of the parser of each rule of an accepted grammar is the one documented: characters are char, repetitions Vec, options Option, sequences tuples without their unit components, "
     "choices the common type of their branches, actions the return type of the function (or its Box), spans (Span, values...), ranges Range, annotated rules their annotation, and () where no value remains. "
     "Recursive rules take the type of their non-recursive part, or () with a warning that names the rule.",
     ["programs"], "every accepted grammar, every rule",
     "Types follow from a whole-grammar inference with recursion; the tests type a few grammars.",
     [MID + "typing/surface.rs", MID + "typing/depth.rs", MID + "typing/type_rewriting.rs", MID + "typing/ast.rs", BACK + "rtype.rs"],
     [("types of expressions", "a type per expression, refined until it is final", MID + "typing/ast.rs")],
     [("inference", MID + "typing/surface.rs, depth.rs"), ("recursive types", MID + "typing/type_rewriting.rs")],
     ["the type of parse_r as seen by rustc", "warnings of the macro"],
     technique="TLA+ specification of the type inference evaluated by TLC on generated grammars; the types seen by rustc are compared with it",
     note="The comparison is on complete types. All Rust types written by users are equal for oak. " + TRUST)

prop("C06", "Errors are reported at the farthest failure with exactly the expected items",
     "After every run, successful or not, the error report names the farthest position at which a terminal failed and the set of all the terminals that failed at that position (literals by their text, "
     "classes by their display, `<character>` for any character), whatever was backtracked, repeated, optional or inside a predicate.",
     ["inputs", "programs", "histories"], "every accepted grammar, rule and input",
     "The report accumulates over all the attempts of a run; the tests look at whether a run failed, hardly at the report.",
     ["runtime/src/parse_state.rs", BACK + "str_literal.rs", BACK + "character_class.rs", BACK + "any_single_char.rs"],
     [("farthest_read", "farthest failure", "runtime/src/parse_state.rs"), ("expected", "items expected there", "runtime/src/parse_state.rs")],
     [("recording", "runtime/src/parse_state.rs ParseState::error"), ("propagation through restore/success/failure", "runtime/src/parse_state.rs")],
     ["ParseState.farthest_read and ParseState.expected after each run", "text of the error"],
     technique="TLA+ machine with the report as state (Monotonic, EndsRight checked by TLC); reports of recorded runs checked against the specification",
     note="Expected items compared as sets. " + TRUST)

prop("C07", "Every accepted grammar terminates on every input",
     "The generated functions of a grammar that the macro accepts terminate on every finite input, without overflowing the stack on short inputs: grammars with left recursion, direct, indirect or hidden behind "
     "expressions that may match nothing, and repetitions of expressions that may match nothing, are always refused. Each grammar is analysed alone, and the rules of other grammars that it calls are taken to read at least one character when they succeed. "
     "The macro itself terminates on every grammar.",
     ["programs", "inputs"], "every grammar, every finite input",
     "A single missed left-recursive or looping grammar makes generated parsers hang; tests list a few such grammars.",
     [MID + "analysis/well_formedness.rs", BACK + "repeat.rs"],
     [("recursion path", "rules being visited and whether input was consumed since", MID + "analysis/well_formedness.rs")],
     [("left recursion", MID + "analysis/well_formedness.rs"), ("infinite loops", MID + "analysis/well_formedness.rs")],
     ["hangs and crashes of generated functions", "grammars accepted by the macro that the specification shows to diverge"],
     technique="TLC checks <>Done, LoopsProgress and a bound of the stack on all accepted grammars of small scopes; the macro's verdict is compared with the specification and accepted grammars are run",
     note="Liveness is checked by TLC on the machine under weak fairness. " + TRUST)

prop("C08", "Exactly the ill-formed grammars are refused",
     "A grammar is refused for its structure exactly when the documented analysis says so: left recursion, an expression that never succeeds, one that always succeeds without consuming, a repetition of an expression that may succeed "
     "without consuming, or a branch that cannot be reached; each such error points into the rule that contains the culprit. Well-formed grammars raise none of these errors.",
     ["programs"], "every grammar",
     "The analysis is a fixpoint over mutually recursive rules; the tests cover single-rule shapes.",
     [MID + "analysis/well_formedness.rs"],
     [("abstraction of a rule", "may fail, may succeed, always consumes, never consumes", MID + "analysis/well_formedness.rs WFA")],
     [("fixpoint", MID + "analysis/well_formedness.rs")],
     ["errors of the macro: kind and rule"],
     technique="TLA+ specification of the analysis evaluated by TLC on all grammars of small scopes and on generated ones; the diagnostics of the macro are compared with it",
     note="Verdicts, kinds and places of errors compared on thousands of grammars per run, exhaustively on small scopes. " + TRUST)

prop("C09", "Warnings about useless operator chains are exact and sound",
     "The macro warns about an expression of the form outer(inner(e)) exactly for the documented useless chains of predicates, options and repetitions, also through annotations, actions, choices of predicates and rule calls, in the rule that contains it. "
     "The rewriting it suggests recognises the same language.",
     ["programs"], "every grammar, every chain of operators",
     "Warnings are not asserted by the tests beyond a few grammars, and the equivalence of the rewriting is a statement about all inputs.",
     [MID + "analysis/useless_chaining.rs"],
     [("operator on top of an expression", "the operator an expression starts with", MID + "analysis/useless_chaining.rs")],
     [("detection and rewriting", MID + "analysis/useless_chaining.rs")],
     ["warnings of the macro: chain, suggested rewriting, rule"],
     technique="TLA+ specification of the chains; TLC proves on small scopes that each suggested rewriting is equivalent; warnings of the macro compared with the specification",
     note="Exhaustive over chains of depth two; generated beyond. " + TRUST)

prop("C10", "A stream is a faithful cursor over its text",
     "Reading a stream yields the characters of its text in order, each exactly once, and then nothing; consuming a prefix advances by exactly that prefix when the text continues with it and otherwise changes nothing. "
     "Clones are independent, comparisons order streams by position, and the offset, the remaining-input test and the current character always describe the position reached.",
     ["histories", "inputs"], "every text, every sequence of operations on several clones",
     "Streams are mutable cursors over UTF-8 text; the tests use short ASCII texts and single operations.",
     ["runtime/src/str_stream.rs", "runtime/src/file_map_stream.rs"],
     [("offset", "bytes already read", "runtime/src/str_stream.rs StrStream.bytes_offset")],
     [("reading", "runtime/src/str_stream.rs next"), ("consume_prefix", "runtime/src/str_stream.rs"), ("ordering", "runtime/src/str_stream.rs")],
     ["results of each operation and the offset after it"],
     technique="TLA+ model of two streams over a text (StreamModel) explored completely by TLC: every operation from every reachable state is replayed in the code; recorded observations checked by TLC against the specification, also of long random histories",
     note="Complete over texts of at most 3 characters of {a, e acute, LF} (thorough; a sixth of it in quick), random long histories on &str, String and FileMap. " + TRUST)

prop("C11", "Locations, snippets and messages describe the position of the error",
     "The location of a position is the line (counted by line feeds) and the byte column of that position in the text, both from 1; the snippet is the longest run of whole characters that fits in the requested number of bytes, or `<end-of-file>` at the end. "
     "The text of an error is the location, the snippet and every expected item exactly once. A source file gets the start of each of its lines registered, once.",
     ["inputs"], "every text (with any mix of line ends and multi-byte characters), every position, every snippet length",
     "Location arithmetic on arbitrary UTF-8 texts; the tests do not cover locations.",
     ["runtime/src/str_stream.rs", "runtime/src/file_map_stream.rs", "runtime/src/parse_state.rs"],
     [("offset", "bytes already read", "runtime/src/str_stream.rs StrStream.bytes_offset")],
     [("location", "runtime/src/str_stream.rs line_column"), ("snippet", "runtime/src/str_stream.rs code_snippet"), ("message", "runtime/src/parse_state.rs")],
     ["text of locations, snippets and errors", "lines registered in the source file"],
     technique="TLA+ definitions of locations, snippets and messages (OakResult); locations, snippets of all lengths and messages recorded at every position of all short texts and of random ones are checked against them by TLC",
     note="Complete over the texts of at most 3 (thorough: 5) characters of {a, e acute, LF, CR}. " + TRUST)

prop("C12", "The parse state keeps its protocol and results are classified faithfully",
     "Whatever the sequence of operations on a parse state, a successful state with a value gives a full match at the end of the input and a partial match otherwise, a failed one gives a failure, and the report of the farthest failure survives success, failure, marks and restorations. "
     "Recording an error, marking, restoring and extracting change only what they name, and misuses (marking a failed state, restoring a successful one as a failure, restoring one with data, extracting from a failed one) are rejected.",
     ["histories"], "every sequence of operations on a parse state",
     "The protocol is a state machine used by all generated code; no test exercises it directly.",
     ["runtime/src/parse_state.rs"],
     [("ParseState", "position, farthest failure, expectations, failure flag, value", "runtime/src/parse_state.rs")],
     [("transitions", "runtime/src/parse_state.rs error, success, failure, mark, restore, restore_from_failure, extract_data, into_result")],
     ["the public fields after each operation, the results and their text"],
     technique="TLA+ state machine of the parse state (StateModel) explored completely by TLC with its protocol as invariants and action properties; every operation from every reachable state is replayed in the code and the observations are checked by TLC",
     note="All states with at most two marks and two expectations over a text of two characters (thorough; a ninth of it in quick), random histories of up to 60 operations. " + TRUST)

prop("C13", "Spans and ranges delimit exactly the text matched",
     "A span or range expression gives the offsets at which its operand started and stopped matching, and only them: nested in repetitions, options, branches and after backtracking, for multi-byte text, when parsing starts in the middle of a stream, "
     "and relative to the base position of a source file.",
     ["inputs", "programs"], "every accepted grammar with spans, every input and start position",
     "The tests have one span grammar with ASCII inputs.",
     [BACK + "spanned_expr.rs", "runtime/src/str_stream.rs", "runtime/src/file_map_stream.rs", "runtime/src/lib.rs"],
     [("mark", "position where the operand starts", BACK + "spanned_expr.rs")],
     [("spans", BACK + "spanned_expr.rs"), ("offsets", "runtime/src/str_stream.rs stream_span, runtime/src/file_map_stream.rs stream_span")],
     ["spans and ranges in values and arguments of actions"],
     technique="TLA+ semantics of spans; recorded values of generated parsers on two kinds of streams checked against it by TLC",
     note="Spans compared inside complete values. " + TRUST)

prop("C14", "Behaviour does not depend on the stream nor on where parsing starts",
     "A generated parser behaves the same on a string, on a source file and on a stream written by the user, up to the base offset of the file; started after a prefix has been read from the stream, it matches, builds values and reports errors "
     "as on the remaining text, with positions and locations still relative to the whole text.",
     ["inputs", "configurations"], "every accepted grammar, stream type, start position and input",
     "The tests parse whole strings only.",
     ["runtime/src/file_map_stream.rs", "runtime/src/str_stream.rs", "runtime/src/stream.rs", MID + "mod.rs", "src/liboak/ast.rs"],
     [("stream alias", "the stream type of the grammar", "src/liboak/ast.rs stream_alias")],
     [("stream redefinition", MID + "mod.rs extract_stream_type"), ("delegation", "runtime/src/file_map_stream.rs")],
     ["all the observations of a run, per stream type and start position"],
     technique="one TLA+ semantics; recorded runs on three kinds of streams and from many start positions checked against it by TLC",
     note="The user stream has positions in characters. " + TRUST)

prop("C15", "Every accepted grammar compiles",
     "When the macro accepts a grammar whose actions and external rules exist with suitable types, the generated code compiles, whatever the names of rules and actions (except the few names reserved by the generated functions), the nesting, the number of values, "
     "and the other items written in the grammar.",
     ["programs"], "every accepted grammar",
     "Generated code binds many variables; clashes and scoping errors only appear for some nestings and names.",
     ["src/liboak/back/context.rs", "src/liboak/back/name_factory.rs", BACK + "choice.rs", BACK + "rtype.rs", BACK + "value.rs"],
     [("fresh names", "counters of the name factory", "src/liboak/back/name_factory.rs")],
     [("names", "src/liboak/back/name_factory.rs"), ("types", BACK + "rtype.rs")],
     ["rustc accepts the generated code"],
     technique="grammars accepted by the TLA+ specification (well-formedness and typing evaluated by TLC) must compile; rustc is the oracle",
     note="The specification decides which grammars must compile and gives their types; rustc decides whether they do. " + TRUST)

prop("C16", "The concrete syntax is read as documented",
     "Grammars are read with the documented precedence (choice, then action, then span, then sequence, then annotation, then prefix, then suffix operators, then atoms and parentheses), character classes denote the documented sets, attributes and Rust items are kept, and duplicate rules, undefined rules, "
     "malformed classes and malformed expressions are refused with an error.",
     ["programs", "inputs"], "every token sequence",
     "The front end is a recursive-descent parser with lookahead; tests cover the usual spellings.",
     ["src/liboak/front/parser.rs", MID + "analysis/duplicate.rs", MID + "analysis/resolve_non_terminal.rs"],
     [("token position", "where the next token is read", "src/liboak/front/parser.rs")],
     [("precedence", "src/liboak/front/parser.rs"), ("classes", "src/liboak/front/parser.rs parse_char_class")],
     ["diagnostics of the macro and behaviour of what was read"],
     technique="TLA+ specification of the concrete syntax (OakSyntax: tokens to abstract syntax or refusal) evaluated by TLC on enumerated and mutated token sequences; verdicts of the macro, types and recorded runs of what was read are checked against the specification",
     note="All sequences of at most 3 tokens over 14 tokens (thorough: 4), mutated token sequences of generated grammars beyond. Rust types other than names are not described. " + TRUST)

prop("C17", "Rules of other grammars compose like local rules",
     "Calling a rule of another grammar behaves like calling a local rule with the type given to it: same recognition, same value (as one component), same actions, same contribution to the error report, and position and report continue through the call in both directions. "
     "Under a unit annotation its recognizer is used.",
     ["programs", "inputs"], "every group of accepted grammars that call each other's rules, every input",
     "The tests have a single grammar with an external rule.",
     [BACK + "non_terminal.rs", "src/liboak/back/name_factory.rs", MID + "typing/surface.rs", MID + "typing/depth.rs"],
     [("parse state", "shared by the functions of several grammars", "runtime/src/parse_state.rs")],
     [("external calls", BACK + "non_terminal.rs"), ("types of external rules", MID + "typing/depth.rs")],
     ["all the observations of runs that cross grammars"],
     technique="TLA+ semantics over several grammars; recorded runs of groups of generated parsers checked against it by TLC",
     note="Groups of two or three grammars, calls over one or two levels. " + TRUST)

prop("C18", "Exactly the ill-typed grammars are refused",
     "A grammar is refused by the typing exactly when the documented rules say so: branches of a choice of different types, an expression whose type is not the one of its annotation, an external rule or function whose type is neither given nor deducible, a recursive expression whose value cannot have the type of its cycle, "
     "or an action that returns nothing; the error points into the rule that contains the culprit.",
     ["programs"], "every well-formed grammar",
     "Typing is a whole-grammar inference; the tests type a few grammars.",
     [MID + "typing/surface.rs", MID + "typing/depth.rs", MID + "typing/type_rewriting.rs"],
     [("types of expressions", "a type per expression", MID + "typing/ast.rs")],
     [("inference", MID + "typing/surface.rs"), ("annotations", MID + "typing/depth.rs")],
     ["errors of the macro: kind and rule"],
     technique="TLA+ specification of the typing evaluated by TLC on small scopes and generated grammars; the diagnostics of the macro are compared with it",
     note="Verdicts, kinds and places of errors. " + TRUST)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                             "mechanism": [dict(zip(("name", "where"), m)) for m in p["mechanism"]],
                             "observe_at": p["observe"], "hook_needed": p["hook"]}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            man["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                                  "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
                                  "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
