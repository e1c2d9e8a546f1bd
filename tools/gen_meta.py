#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))

prop("C01", "Run is lex, then lex errors, then parse, then every reducer in order",
 "Running a text through a lexer, a parser and reducers gives exactly the result of calling them one after another: each component is called once, with the unchanged result of the one before it, and reducers run in the order they were given (nil reducers are skipped). If any lexeme is an error, the first such error is returned and the parser is not called; if the lexer, the parser or a reducer gives nothing, a lexing, parsing or reducing error is returned and nothing later is called; no error comes with a tree. A runner that was built once gives for every text the same as a single run does.",
 ["inputs", "programs", "configurations"], "all texts, all lexers, parsers and lists of reducers (also nil ones, and components that fail), any number of runs",
 "The tests run one pipeline with one input; which errors win, and that no component is called after a failure, needs combinations of failing components.",
 ["parlex.go", "helpers.go", "errors.go"], [("Run / Runner.Run", "parlex.go"), ("LexErrors", "helpers.go")],
 "model-based PBT with recording stand-ins; differential against manual composition",
 "Sampled component behaviours; the stand-ins record every call. Trusts the harness's own composition.")

prop("C02", "The simple lexer splits any text by maximal munch, with nothing lost",
 "At every position the simple lexer takes the rule with the longest match (the first such rule if several are as long), or after switching to priority order the first rule that matches at all; matches of nothing do not count. Text that no rule matches at any position becomes error lexemes, one for each longest stretch of it, and what is matched by a discarded rule disappears, so that the values of the lexemes and the discarded text are the input in order. A configured start and end lexeme come first and last, and it never panics, whatever bytes it gets.",
 ["inputs", "configurations"], "all rule lists (overlapping, matching the empty string, without a pattern), both orders, all byte strings",
 "Tests lex a few short texts with a handful of rules; the lexer caches the next match of each rule, and whether the cache is right depends on how matches of all rules interleave with errors and discards.",
 ["lexer/simplelexer/lexer.go", "lexer/simplelexer/construct.go"], [("per-rule cache of the next match, chosen by a comparison", "lexer/simplelexer/lexer.go"), ("start and end insertion", "lexer/simplelexer/construct.go")],
 "PBT against an independent reference lexer (anchored matching at each offset)",
 "Rules from a pool of overlapping patterns, inputs of up to several thousand bytes. Patterns that look to the left of the match (^, \\b at the start) are out of scope.")

prop("C03", "Both lexers report the exact line and column of every lexeme and error",
 "The position of every lexeme, error lexemes included, is the line and column at which its text starts: newlines are counted wherever they occur (inside lexemes, discarded text and errors too), columns are bytes from 1, and lines start at 0 in the simple lexer and at 1 in the stack lexer. The message of a lexing error states that same line and column and the offending text.",
 ["inputs", "configurations"], "all texts with newlines anywhere, both lexers with all their settings",
 "Tests check positions for a couple of fixed texts; positions are derived incrementally from cached offsets, so an error shows only for particular mixes of newlines, discards, errors and pushes.",
 ["lexer/simplelexer/lexer.go", "lexer/stacklexer/lex.go", "lexer/stacklexer/construct.go", "lexeme/lexeme.go"], [("offset to line and column", "lexer/simplelexer/lexer.go, lexer/stacklexer/lex.go"), ("error lexemes", "lexer/simplelexer/lexer.go, lexer/stacklexer/construct.go")],
 "PBT against a reference lexer that recomputes positions from offsets",
 "Sampled; inserted start and end lexemes have no position and are not checked.")

prop("C04", "Simple lexer definitions mean what they say and survive being printed",
 "A definition is one rule per line - a kind, optionally a pattern between slashes, optionally a discard mark - and however it is laid out, split over several strings or added one by one (also after the lexer has been used), it gives the same lexer; a rule without a pattern uses its own name as the pattern. Printing a lexer and reading that text again gives a lexer that lexes everything the same way. Invalid patterns and kinds that are defined twice are reported as errors and no lexer is returned.",
 ["inputs", "programs", "configurations"], "all definitions in all layouts, valid and invalid, and all texts lexed with them",
 "The tests have a few well-formed definitions; printing and reading again depends on the characters in kinds and patterns.",
 ["lexer/simplelexer/construct.go"], [("rule syntax, duplicate check", "lexer/simplelexer/construct.go"), ("escaping of slashes when printing", "lexer/simplelexer/construct.go")],
 "round-trip and metamorphic PBT on generated definitions",
 "Behavioural equality is checked on sampled inputs.")

prop("C05", "The stack lexer is a stack machine of sub-lexers",
 "Lexing starts in the first sub-lexer; in the current one the longest match wins (the earliest rule among equals; in priority order the earliest rule that matches). A rule that pushes enters the named sub-lexer after its lexeme, one that pops returns as many levels as it says but never below the first, and where no rule of the current sub-lexer matches it returns one level without consuming anything; only where the stack is empty does unmatched text become an error lexeme, one per longest stretch. No text is lost, discarded rules may push and pop too, rules inherited from another sub-lexer behave as if they were written at the place of inheritance, and of two rules for the same kind in a sub-lexer the first counts.",
 ["inputs", "histories", "configurations"], "all sets of sub-lexers with push, pop, multi-level pop, discard and inheritance, both orders, all texts",
 "Each text drives a history of pushes and pops over cached matches; the tests have a few such histories and almost none with unmatched text inside nested sub-lexers.",
 ["lexer/stacklexer/lex.go", "lexer/stacklexer/construct.go"], [("stack of sub-lexers and per-rule match cache", "lexer/stacklexer/lex.go"), ("inheritance", "lexer/stacklexer/construct.go")],
 "model-based PBT against a reference stack machine",
 "Stacks up to a few dozen levels. Patterns that look to the left of the match are out of scope.")

prop("C06", "Stack lexer definitions are checked, and order and layout do not matter",
 "A definition gives the same lexer each time it is built, whatever the layout and however sub-lexers are spread over the strings; the sub-lexer defined first is where lexing starts, and of two definitions with the same name the later one replaces the earlier. Invalid patterns, pushes to sub-lexers that do not exist, cyclic inheritance, references to groups a pattern does not have, and definitions without any sub-lexer are reported as errors, without a lexer and without a panic or endless loop; the variant that must succeed panics for exactly those.",
 ["programs", "configurations"], "all definitions of sub-lexers, valid or with one of those mistakes anywhere",
 "Building goes through maps, so a mistake can show in some runs only; the tests have one or two invalid definitions.",
 ["lexer/stacklexer/construct.go"], [("definition parsing and inheritance", "lexer/stacklexer/construct.go")],
 "PBT with fault injection into definitions, repeated builds, reference lexer",
 "Every definition is built three times to expose iteration order. Sampled.")

prop("C07", "A stack lexer rule can compose its value from groups and literals",
 "If a rule lists groups and literal texts, the value of its lexeme is exactly these pieces in the listed order, whichever they are and however often they occur; a group that took no part in the match contributes nothing. What is consumed from the input is still the whole match.",
 ["inputs", "configurations"], "all patterns with groups (optional, nested, empty), all lists of groups and literals, all matching texts",
 "The tests have two such rules, none with a group that did not match.",
 ["lexer/stacklexer/lex.go", "lexer/stacklexer/construct.go"], [("submatch lists", "lexer/stacklexer/construct.go"), ("value from submatches", "lexer/stacklexer/lex.go")],
 "PBT against the regexp package's submatches",
 "Sampled patterns of up to five segments.")

prop("C08", "A grammar is exactly what its text lists, in order",
 "Reading grammar text gives every production of every non-terminal in the order in which they were written, with continuation lines belonging to the non-terminal above and an empty right side meaning the empty production; the non-terminals are in order of first definition and the first is the start symbol. A line without an arrow is a production too, a line with two arrows is an error. Adding productions afterwards, of any representation, appends copies of them, and printing a grammar, which aligns the arrows, and reading it again gives the same grammar.",
 ["inputs", "programs"], "all grammar texts in all layouts, valid or not, and all sequences of additions",
 "The tests read five grammars; order, empty productions and symbols used before they are defined interact with interned symbol numbers.",
 ["grammar/grammar.go", "symbol/setsymbol/set.go"], [("line parser, order list, Add and String", "grammar/grammar.go")],
 "round-trip PBT and PBT against a reference reader",
 "Symbols without white space and arrows.")

prop("C09", "Left recursion is reported exactly when the grammar has it",
 "The check for left recursion says yes if and only if some non-terminal can derive a string that begins with itself, directly, through other non-terminals, or behind symbols that can derive the empty string. It always terminates and does not depend on the order in which non-terminals are listed.",
 ["programs"], "all grammars, with any chains of non-terminals, cycles and empty productions",
 "Tests have a few small grammars; hidden and indirect recursion have unboundedly many shapes.",
 ["leftrecursion.go", "parser/topdown/topdown.go"], [("nullable set and depth-first search", "leftrecursion.go")],
 "PBT against a transitive-closure oracle",
 "Grammars of up to 30 non-terminals.")

prop("C10", "Removing left recursion keeps the language and removes the recursion",
 "For every grammar, removing left recursion gives a grammar that is not left recursive, that the top-down parser accepts, and that generates exactly the same strings from its start symbol. The argument is not changed, new non-terminals never clash with existing names, and it terminates for cyclic grammars and empty productions.",
 ["programs"], "all grammars, left recursive directly, indirectly, behind empty symbols, with cycles or not at all",
 "Language equality is over all strings; the tests compare the printed result for three grammars.",
 ["grammar/left_recursion.go", "leftrecursion.go"], [("substitution and direct left recursion removal", "grammar/left_recursion.go")],
 "PBT, language equality on exhaustive short and derived strings with an independent chart recogniser",
 "Equality is decided on all strings up to a length (about 40 strings) and sampled derivations; grammars whose substitution explodes are not generated.")

prop("C11", "The packrat parser accepts exactly the language of any grammar",
 "For every context-free grammar - left recursive in any way, ambiguous, cyclic, with empty productions - and every sequence of lexemes, the packrat parser returns a tree if and only if the grammar derives the sequence of kinds from its first non-terminal. It always terminates, also for the empty sequence and for kinds the grammar does not know.",
 ["inputs", "programs"], "all grammars and all lexeme sequences",
 "Acceptance depends on the order in which partial results are found; the tests have about ten grammars with one input each, nearly all accepted.",
 ["parser/packrat/packrat.go", "symbol/setsymbol/set.go"], [("agenda of partial trees, memo by symbol, start and end", "parser/packrat/packrat.go")],
 "PBT, differential against an independent chart recogniser",
 "Inputs up to 24 tokens for random grammars, 60 for common shapes. Lexeme kinds are not non-terminals.")

prop("C12", "A packrat tree is a derivation of exactly the lexemes it was given",
 "In every tree the packrat parser returns, the root is the first non-terminal, every inner node with its children is a production of the grammar, and the leaves in order are the lexemes of the input with their kinds, values and positions. Parents and children agree, the root has no parent, no node occurs twice, and an inner node is positioned where its first child is.",
 ["inputs", "programs"], "all grammars and all accepted lexeme sequences",
 "Tests compare a few printed trees; with ambiguity and cycles a partial result can be replaced after others were built on it.",
 ["parser/packrat/packrat.go", "tree/parsetree.go"], [("tree construction from the memo", "parser/packrat/packrat.go")],
 "PBT with a derivation-tree validity oracle",
 "Same generators as C11.")

prop("C13", "Packrat resolves ambiguity by the order of productions",
 "In a tree of the packrat parser, a node never uses a production if an earlier production of the same non-terminal derives the same stretch of lexemes (in grammars without cycles). So for an expression grammar of binary operators that lists looser operators first, the tree has the usual precedences, and operators of the same level group to the left.",
 ["inputs", "programs"], "all ambiguous grammars without cycles, all accepted inputs; all operator expressions",
 "Which candidate wins depends on the order in which they are found; tests have one or two ambiguous inputs.",
 ["parser/packrat/packrat.go"], [("priority comparison when a span is derived again", "parser/packrat/packrat.go")],
 "PBT: per-node minimality against a chart, precedence climbing for operators",
 "How spans are split between the symbols of one production is pinned down only for operator grammars.")

prop("C14", "The top-down parser is ordered choice, and refuses left recursion",
 "Building a top-down parser fails with its left recursion error exactly for left recursive grammars. Otherwise, for every lexeme sequence it commits at each non-terminal and position to the first production whose symbols match there (the start symbol: the first that matches all the input), and returns that tree, or nothing if it does not cover the input. Its trees are derivations of exactly the input, with consistent parents and no shared nodes, and packrat accepts whatever it accepts.",
 ["inputs", "programs"], "all grammars and all lexeme sequences",
 "Results are memoised by symbol and position; the tests have a handful of inputs.",
 ["parser/topdown/topdown.go", "leftrecursion.go"], [("memoised recursive descent", "parser/topdown/topdown.go")],
 "PBT against a reference ordered-choice parser",
 "Sampled grammars and inputs; lexeme kinds are not non-terminals.")

prop("C15", "Trees survive being printed and read again, and bad tree text is an error",
 "Printing any tree and reading the text gives an equal tree: same kinds, same values (with quotes, backslashes and newlines in them), same children in the same order, and parents set. Reading any other text gives either a tree that agrees with the text line by line or an error, never a panic; unbalanced braces, misplaced lines and text without any node are errors.",
 ["inputs"], "all trees with any values, and all texts",
 "The tests read a few trees in one layout.",
 ["tree/parsetree.go"], [("line reader and printer", "tree/parsetree.go")],
 "round-trip PBT and mutation fuzzing against a reference reader",
 "Kinds have no white space, quotes, colons or braces.")

prop("C16", "Every tree edit does what it says and leaves a consistent tree",
 "Each edit - removing children by index (negative ones count from the end) or by kind, promoting a child, its value, its children or all grandchildren, replacing a node with a child - changes the node and its children as documented and nothing else, for indexes in and out of bounds; out of bounds it changes nothing. After any sequence of edits every child has its parent, no node is in the tree twice, and size, child access and kind tests agree with the tree; a clone is equal to and independent of the original.",
 ["histories", "inputs"], "all trees, all sequences of edits with any indexes on any nodes, copying included",
 "Edits share slices, so an error in one shows after another; the tests apply each once to one tree.",
 ["tree/node_reductions.go", "tree/chain_reductions.go", "tree/parsetree.go"], [("in-place slice edits", "tree/node_reductions.go"), ("Clone", "tree/parsetree.go")],
 "stateful model-based PBT against a pure tree model",
 "Histories of up to 30 operations on trees of up to 50 nodes.")

prop("C17", "A reducer applies its rule once to every node, children first",
 "Reducing a tree applies to each node the rule for its kind, after its children were reduced from left to right, and to no others; the reduced tree equals what the operations of the rules, chained in order and with their conditions, give on a model. The tree passed in is not changed, merging two reducers gives all rules of both and chains those for the same kind, first reducer first, in a reducer of its own that can be changed without changing either, and a missing tree stays missing.",
 ["inputs", "programs"], "all trees and all reducers made of the provided operations, conditions and merging",
 "The tests have one reducer per operation.",
 ["tree/reducer.go", "tree/chain_reductions.go"], [("recursive reduction on a clone", "tree/reducer.go"), ("chaining and conditions", "tree/chain_reductions.go")],
 "model-based PBT",
 "Rules of up to three operations; trees of up to 50 nodes.")

prop("C18", "Reducers written as text do the same as reducers written in code",
 "A reducer text gives, for every tree, the same result as chaining the named operations with the written arguments (integers, negative ones too, and quoted names), with conditional operations and comments, however it is laid out; if there are several rules for a kind, the last one counts. Text that is not of that form gives an error, or a panic from the variant that must succeed, and no reducer.",
 ["inputs", "programs"], "all reducer texts and all trees",
 "The tests read a few rules.",
 ["tree/reducer/reducer.go"], [("reducer language", "tree/reducer/reducer.go")],
 "differential PBT against direct construction, invalid texts by mutation",
 "Rules are for different kinds; decimals and escapes in names are out of scope.")

prop("C19", "A grammar with ?, *, | and groups generates the language it describes",
 "Text with alternatives, optional parts, repetitions and nested groups gives a grammar that derives exactly the strings this notation stands for, from the first non-terminal. Alternatives keep their order, an optional part is tried present before absent and repetition prefers more, so ordered parsers behave as expected; parts that merely look alike are kept apart. Invalid text is an error, or a panic from the variant that must succeed.",
 ["inputs", "programs"], "all such grammar texts in all layouts, all token strings",
 "Expansion is combinatorial and generates helper non-terminals; the tests have a few texts.",
 ["grammar/regexgram/regexgram.go"], [("expansion into productions and helper non-terminals", "grammar/regexgram/regexgram.go")],
 "differential PBT against direct matching of the notation",
 "Up to 4 non-terminals and inputs of up to 8 tokens.")

prop("C20", "The reducer that comes with such a grammar hides all helper nodes",
 "Reducing any parse tree of such a grammar with the reducer returned along with it removes exactly the helper nodes: each node's children become the symbols matched by its right side, in order, with nothing lost, repeated or reordered.",
 ["inputs", "programs"], "all such grammars, all parsed inputs",
 "Helper names and nested repetitions combine freely; the tests check a few trees.",
 ["grammar/regexgram/regexgram.go", "tree/node_reductions.go"], [("generated reducer", "grammar/regexgram/regexgram.go")],
 "PBT: flattened tree must derive the input in the original notation",
 "As C19.")

prop("C21", "Grammar analysis gives exact first sets",
 "The analysis of a grammar knows every symbol of the grammar and no other, tells non-terminals from the rest, and says that a terminal can come first in a symbol, or that an empty production can be reached from it through leftmost children only, exactly when that is so, through any recursion (every symbol comes first in itself). It answers no for symbols it does not know, and does not depend on how symbols are represented.",
 ["programs"], "all grammars, all pairs of symbols known or not",
 "First sets are a fixed point; the tests have one grammar without hidden recursion.",
 ["analyze/analysis.go"], [("first set fixed point", "analyze/analysis.go")],
 "PBT against a transitive-closure oracle",
 "Grammars of up to 12 non-terminals.")

prop("C22", "Symbol sets are faithful: one number per name, views show the contents",
 "A symbol set gives equal names the same symbol and number and different names different ones, numbers are dense and stable, and looking something up does not add it. Symbols, productions and lists of productions converted between representations keep names, order and length, further additions to them do not show anywhere else than where they were made, indexes past the end give nil, nothing converts to nothing and counts as empty, and iterators visit everything once in order.",
 ["histories", "inputs"], "all sequences of operations on sets and productions, with symbols of any representation and of other sets",
 "Everything is interned, so mixing sets or aliasing a slice shows only after particular histories.",
 ["symbol/setsymbol/set.go", "symbol/stringsymbol/symbol.go", "helpers.go"], [("interning", "symbol/setsymbol/set.go"), ("casts and iterators", "symbol/setsymbol/set.go, symbol/stringsymbol/symbol.go, helpers.go")],
 "stateful model-based PBT",
 "Histories of up to 40 operations on two sets.")

prop("C23", "Lexers, parsers and reducers can be reused; they do not change arguments",
 "The result of lexing, parsing, reducing or analysing depends only on its arguments: the same object gives the same answer for the same input whatever it was used for before, errors included, and as a fresh object does. Results already returned do not change later, and grammars, lexemes and trees passed in are left as they were.",
 ["histories", "inputs"], "all sequences of uses of one object with all inputs",
 "Tests use each object once or twice; state left over from one use shows in a later one.",
 ["lexer/simplelexer/lexer.go", "lexer/stacklexer/lex.go", "parser/packrat/packrat.go", "parser/topdown/topdown.go", "tree/reducer.go"], [("per-call operation structs", "lexer/*/lex*.go, parser/*/*.go")],
 "stateful metamorphic PBT (reused object against fresh object, snapshots of arguments)",
 "Histories of up to 10 uses; sequential use only.")

prop("C24", "The JSON formatter changes nothing but white space",
 "Formatting accepts exactly the token sequences that are values of its JSON dialect (numbers without sign or exponent), and the output is the same document: without white space outside strings it equals the input. Formatting is independent of the white space in the input and formatting again changes nothing; on invalid input there is an error and no output.",
 ["inputs"], "all JSON texts, valid and invalid",
 "The tests format three documents.",
 ["examples/parlexjson/json.go"], [("stack of lexer, regexgram, topdown, reducers", "examples/parlexjson/json.go")],
 "PBT: round-trip, idempotence, differential against encoding/json and a token reader",
 "Documents of up to a few dozen tokens.")

prop("C25", "The calculator evaluates every expression as arithmetic does",
 "An expression of numbers, + - * /, parentheses and signed numbers evaluates to the value that the usual precedences and grouping to the left give, however it is spaced. Anything else is an error.",
 ["inputs"], "all expressions and token sequences",
 "The tests evaluate eight expressions.",
 ["examples/parlexmath/math.go"], [("ambiguous grammar resolved by packrat priorities", "examples/parlexmath/math.go")],
 "differential PBT against precedence climbing",
 "Expressions of up to about 30 tokens.")

prop("C26", "The stack calculator computes what its notation says",
 "A program of numbers, unary, binary, ternary and stack operators and nested stacks gives the values and precisions that a stack machine computes: operators take the topmost values, stack operators the whole current stack, a parenthesised stack contributes all its values, and the ternary takes its second operand if its condition is positive. Stack manipulation is covered as the last token only.",
 ["inputs", "programs"], "all programs of that form",
 "The tests evaluate some twenty programs.",
 ["examples/scalc/scalc.go"], [("reducer and evaluator", "examples/scalc/scalc.go")],
 "differential PBT against a stack machine",
 "Programs of up to about 30 tokens; other uses of stack manipulation are documented as broken by the project.")

prop("C27", "Helpers print and select lexemes exactly",
 "Collecting the errors of a list of lexemes returns exactly the error lexemes, in order. The printed forms of a list of lexemes and of single lexemes show every lexeme in order with its kind, its value if there is one and, in the forms that show it, its position if it is set, for any kinds and values; lexemes keep what was set on them, copies are equal and independent, and the variants that must succeed return their argument or panic exactly if there is an error.",
 ["inputs"], "all lists of lexemes of any implementation, all errors",
 "The tests print two lists.",
 ["helpers.go", "lexeme/lexeme.go"], [("LexErrors, LexemeString, LexemeList, Must*", "helpers.go"), ("Lexeme", "lexeme/lexeme.go")],
 "PBT against reference formatting",
 "Sampled.")

prop("C28", "Results depend on names only, not on how grammar or lexemes are built",
 "Parsers, left recursion checks and transformations, and analysis give the same results for every implementation of grammars, productions, symbols and lexemes that has the same names in the same order: interned, plain strings, the package's own or the caller's, also if symbols of several sets are mixed.",
 ["inputs", "programs", "configurations"], "all grammars and inputs in every representation",
 "The tests use one representation each.",
 ["symbol/setsymbol/set.go", "symbol/stringsymbol/symbol.go", "parser/packrat/packrat.go", "parser/topdown/topdown.go", "grammar/left_recursion.go", "leftrecursion.go", "analyze/analysis.go"], [("conversion into the operation's own symbol set", "symbol/setsymbol/set.go")],
 "differential PBT across five implementations of the interfaces",
 "Sampled grammars of C11.")

prop("C29", "Parsing stays polynomial: no exponential blow-up on nesting or ambiguity",
 "The work of both parsers is polynomial in the number of lexemes: the productions of each symbol are looked up at most a constant number of times per pair of positions of the input, and deep nesting, backtracking over common prefixes, ambiguity and cycles do not make it exponential, for accepted and rejected inputs.",
 ["inputs", "programs"], "all grammars with short productions, all inputs of up to 240 lexemes",
 "The tests parse inputs of fewer than twenty tokens, where even exponential work goes unnoticed.",
 ["parser/packrat/packrat.go", "parser/topdown/topdown.go"], [("memo tables", "parser/packrat/packrat.go, parser/topdown/topdown.go")],
 "PBT with a work-counting grammar and a processor time limit",
 "Work is counted as look-ups of productions, with a budget of 20 per symbol and pair of positions, and 20 s of processor time per case.")

prop("C30", "Lexing takes time proportional to the length of the text",
 "For a lexer whose patterns cannot match more than a fixed length, the time to lex a text grows in proportion to its length: rules that match nowhere, or only far away, are not searched for again at every lexeme, and neither positions nor errors are worked out from the start of the text each time. This holds for the simple lexer and the stack lexer (with pushes and pops, if every rule matches often), and every byte of the text is in some lexeme or error.",
 ["inputs", "configurations"], "all lexers with patterns of bounded matches, all texts (of up to 1.5 MB)",
 "The tests lex texts of a few lines.",
 ["lexer/simplelexer/lexer.go", "lexer/stacklexer/lex.go"], [("cached next matches", "lexer/simplelexer/lexer.go, lexer/stacklexer/lex.go")],
 "PBT with large generated texts, a processor time limit and a check that the lexemes spell the text",
 "A text is too slow if it takes more than 1 s of processor time and ten times as long as a quarter of it; super-linear work that stays below that on 1.5 MB is not seen.")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./check.sh --build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "All checks are one Go program (harness/) that draws cases with rapid and checks them against oracles of its own; no hooks in /repo are needed.",
    }, f, indent=1, ensure_ascii=False)
    f.write("\n")
