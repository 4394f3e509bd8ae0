#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Exactly the texts of the Toaq grammar are accepted",
 """A text parses without error if and only if it is derivable from the Toaq grammar the repository documents (ordered
 choice, longest match); every other text is rejected with an error, and no text makes the parser panic or hang.
 Asking for the syntax tree and asking for the concrete parse tree always give the same verdict.""",
 ["inputs"], "every finite text over letters, toned letters, tone marks, spaces and punctuation",
 """The tests sample about 130 short sentences, nearly all of them accepted; the accepted language is infinite and rejected texts are almost untested.""",
 ["ast/toaq.go", "ast/toaq.peggy", "ast/parser.go"],
 [("generated packrat acceptor", "ast/toaq.go _full_textAccepts"), ("grammar", "ast/toaq.peggy")],
 ["ast.Parser.Text", "ast.Parser.Tree"])
prop("C02", "The syntax tree is the one the grammar dictates",
 """For every accepted text the syntax tree has the node kinds, the nesting and the optional parts (focus, quantifier, relative clause, terminators,
 prefix and illocution words, forethought and afterthought connectives) that the grammar's ordered choices dictate.
 Every space and free modifier hangs on the word that immediately precedes it.""",
 ["inputs"], "every accepted text",
 """The tests compare bracketings of some 110 sentences; the interaction of nesting, optional terminators and modifiers is unbounded.""",
 ["ast/toaq.go", "ast/toaq.peggy", "ast/nodes.go", "ast/ast.go"],
 [("rule actions", "ast/toaq.go *Action"), ("node constructors", "ast/nodes.go"), ("modifier attachment", "ast/ast.go mod*")],
 ["ast.Parser.Text"])
prop("C03", "Parsing loses nothing: words appear once, in order, with true offsets",
 """In the syntax tree of an accepted text, the words and spaces taken in tree order carry byte ranges that are adjacent, increasing and together cover the text exactly,
 and the text of each is the normalised spelling of precisely that range of the source.
 Consequently concatenating them gives the whole text in normalised spelling.""",
 ["inputs"], "every accepted text",
 "Only a few tests look at offsets or trailing modifiers; modifiers nest arbitrarily inside free modifiers and terminators.",
 ["ast/toaq.go", "ast/ast.go", "ast/nodes.go"],
 [("Word spans", "ast/toaq.peggy word rules"), ("modifier attachment", "ast/ast.go mod*")],
 ["ast.Parser.Text", "Word.T, Word.S, Word.E"])
prop("C04", "Equivalent spellings mean the same",
 """Writing a tone as a precomposed letter, a combining mark, an ASCII mark or a digit, after the vowel or at the end of the syllable, with a caron or a breve, with dotted or dotless i,
 gives texts that are all accepted or all rejected and whose trees, normalised words, bracketings and formulas agree (up to a precomposed letter with a breve, which keeps it).
 Changing letter case, or the amount and kind of space and punctuation between words, changes only the spelling of those words and spaces.""",
 ["inputs"], "every text and every choice of spelling for each of its syllables, letters and gaps",
 "Tests try each spelling on a handful of single words; combinations of spellings inside sentences and their effect on interpretation are not tested.",
 ["ast/toaq.go", "ast/toaq.peggy", "ast/nodes.go", "tone/tone.go", "logic/interp.go"],
 [("tone letter rules", "ast/toaq.peggy"), ("addTone", "ast/nodes.go"), ("hasText, splitVar, wordPred", "logic/interp.go")],
 ["ast.Parser.Text", "logic.Interpret", "logic.String"])
prop("C05", "Single words are recognised and normalised by the morphology",
 """Asking for the word at an offset succeeds exactly when a well-formed Toaq word starts there (a toned non-function word or compound, or a function word in an allowed tone, ending at a word boundary);
 the result is that longest word in normalised spelling with its byte range, any spaces after it attached, and the number of bytes consumed.""",
 ["inputs"], "every text and every byte offset in it",
 "One test walks one sentence; the syllable inventory has tens of thousands of spellings and boundaries interact with what follows.",
 ["ast/parser.go", "ast/toaq.go", "ast/toaq.peggy"],
 [("word rule", "ast/toaq.peggy word"), ("Parser.Word", "ast/parser.go")],
 ["ast.Parser.Word"])
prop("C06", "A parser answers the same whatever was asked before",
 """Any sequence of requests on one parser (syntax tree, parse tree, word at an offset, in any order and number, succeeding or failing) gets the same answers as fresh parsers would give.
 Every result belongs to the caller: modifying one never changes the answer to a later request.""",
 ["histories"], "every sequence of requests on one parser, with arbitrary modification of the results in between",
 "Each test asks one parser one question; memo tables are shared between all requests.",
 ["ast/parser.go", "ast/toaq.go"],
 [("memo reset", "ast/parser.go Tree, Word, Text")],
 ["ast.Parser.Text", "ast.Parser.Tree", "ast.Parser.Word"],
 [("memo tables", "results cached per rule and position", "ast/toaq.go _Parser")])
prop("C07", "Syntax errors point at the furthest place the parse could reach",
 """A rejected text yields an error whose byte offset is the furthest position at which the grammar could not continue, never beyond the end of the text;
 the message starts with the line and column of that offset and the tree of failed attempts agrees with it.
 A failed word request reports where that word could not continue.""",
 ["inputs"], "every rejected text, and every failing word request",
 "Tests assert that an error occurs, not where; positions depend on the whole backtracking history of the parse.",
 ["ast/parser.go", "ast/toaq.go"],
 [("furthest failure", "ast/toaq.go *Accepts/*Fail"), ("byteOffset", "ast/parser.go")],
 ["ast.Error.ByteOffset", "ast.Error.Tree", "ast.Error.Error"])
prop("C08", "The concrete parse tree covers the text exactly",
 """For every accepted text the concrete parse tree's root spans the whole text, the leaves read left to right spell it byte for byte, and every inner node's text is the concatenation of its children's.""",
 ["inputs"], "every accepted text",
 "No test looks at the concrete tree's contents.",
 ["ast/parser.go", "ast/toaq.go"],
 [("node construction", "ast/toaq.go *Node"), ("Parser.Tree", "ast/parser.go")],
 ["ast.Parser.Tree"])
prop("C09", "Tone operations obey their laws on every word",
 """For every word in normalised spelling: the ASCII form writes each syllable's letters followed by its tone mark and parses back to the same word; stripping yields the plain letters with capitalisation kept;
 replacing the tone changes the tone of the first syllable to the requested one (or none) and nothing else; the reported tone is that of the first toned syllable.""",
 ["inputs"], "every word that a parse can produce and every tone",
 "Tests check some thirty words; the table has some 80 letter forms and interacts with capitals, dotless i and compounds.",
 ["tone/tone.go"],
 [("ToASCII, Strip, WithTone, Tone, Diacritic", "tone/tone.go")],
 ["tone.ToASCII", "tone.Strip", "tone.WithTone", "tone.Tone"])
prop("C10", "Traversal visits every part of a syntax tree once, in source order",
 """Walking a syntax tree calls the visitor on every node before its children and with nil after them, children in source order, each part exactly once, absent parts never;
 returning no visitor for a node skips exactly that node's descendants and its closing call, and the visitor returned for a node is the one used for its children.""",
 ["inputs", "programs"], "every syntax tree and every visitor",
 "Tests cover one example per node kind with one visitor.",
 ["ast/visit.go"], [("Visit", "ast/visit.go")], ["ast.Visit", "ast.FuncVisitor"])
prop("C11", "Tree equality is structural and ignores only positions",
 """Two syntax trees are reported equal exactly when they have the same shape, the same node kinds, the same absent parts and the same word texts including attached modifiers and spaces, wherever they stand in their source.
 Equality is reflexive, symmetric and transitive, and is defined for every kind of node a tree contains.""",
 ["inputs"], "every pair of trees or subtrees",
 "Tests compare selected pairs; a difference can sit in any field at any depth.",
 ["ast/equal.go"], [("Equal, copEqual, wordEqual", "ast/equal.go")], ["ast.Equal"])
prop("C12", "Bracket rendering shows exactly the tree's nesting",
 """The bracket rendering of any tree contains every non-space word in source order, separated by single spaces, with balanced brackets whose kind cycles through the four styles by depth;
 there is one bracket pair for every node with two or more present parts that are not spaces and none for the others, and it is empty for a tree without words.""",
 ["inputs"], "every syntax tree",
 "Tests check about thirty sentences, none with free modifiers nested in modifiers.",
 ["ast/braces.go"], [("BracesString", "ast/braces.go")], ["ast.BracesString"])
prop("C13", "ASCII conversion of a tree keeps everything but the spelling",
 """Converting a tree to ASCII rewrites the spelling of each of its words and spaces to the ASCII form and changes nothing else: structure, offsets and modifiers stay.
 Printing the converted words one after another gives a text that parses to the original tree, and converting twice changes nothing more.""",
 ["inputs"], "every accepted text",
 "One small test; the words of every field of every node kind have to be reached.",
 ["ast/ast.go", "tone/tone.go", "ast/visit.go"], [("ToASCII", "ast/ast.go")], ["ast.ToASCII"])
prop("C14", "Every node knows its extent in the source",
 """Every node of a parsed tree reports as start the offset where its first word begins and as end the offset where its last own word ends, not counting spaces and modifiers attached after it; no query panics; an empty text has the extent of nothing at its start.
 So children lie inside their parents, siblings do not overlap, and the extents follow source order.""",
 ["inputs"], "every node of every accepted text",
 "Existing tests never call the extent queries on most node kinds.",
 ["ast/ast.go"], [("Start, End", "ast/ast.go")], ["ast.Node.Start", "ast.Node.End"])
prop("C15", "Arguments fill the places the text assigns to them",
 """In the formula of any statement, a linked argument occupies the place its linking word names, the other arguments fill the remaining places from left to right, unfilled earlier places are shown as gaps, and none is lost or repeated.
 Arguments of a prenex are passed on to the statement after it when the prenex ends in pa and are not passed when it ends in bi; nested prenexes accumulate accordingly.""",
 ["inputs"], "every statement with any mix of plain and linked arguments, term sets and nested prenexes (each place linked at most once)",
 "Tests have at most one linked term and two arguments.",
 ["logic/interp.go"], [("orderArguments, prenexStatement, goPos", "logic/interp.go")], ["logic.Interpret"])
prop("C16", "Connectives distribute over everything they connect",
 """Connected predicates, arguments, linked arguments, term sets, adverbs, prepositional phrases, relative and content clauses, statements and sentences give connected formulas with the same connective, one branch per connected item in source order, each branch using its own item in place of the connected phrase and sharing the rest.
 Arguments joined by roi give one plural argument instead, and successive sentences of a text are joined by and.""",
 ["inputs"], "every nesting of connectives of every phrase kind, afterthought or forethought",
 "Tests connect two items once; nested or repeated connectives within one statement are untested.",
 ["logic/interp.go"], [("distributePredication, prenexStatement, poArgument, preposition, adverb, roi*, serialPredicate*", "logic/interp.go")], ["logic.Interpret"])
prop("C17", "Quantifiers scope as the language says and every variable is bound or free",
 """Definite descriptions without outer dependencies are bound once at the very top in the order they close, also when a connective repeats them, and become collective bindings in place when they depend on an enclosing variable; hi-questions are bound at the top of their clause; all other quantifiers bind in place, left before right.
 In every formula each bound variable occurs inside its binding, and variables are numbered consistently, each number naming a single variable.""",
 ["inputs"], "every text that can be interpreted",
 "The scope tests are TODO stubs; scoping depends on arbitrary nesting of clauses and connectives.",
 ["logic/interp.go", "logic/simplify.go"], [("predicateArgument, hasFreeVars, subordinate, bindScope, theScope", "logic/interp.go"), ("sequenceVarNums", "logic/simplify.go")], ["logic.Interpret"],
 [("theScope", "definite bindings lifted to the top", "logic/interp.go"), ("hiScope", "stack of clause-level question bindings", "logic/interp.go"), ("liftedScope", "bindings already lifted for an argument", "logic/interp.go")])
prop("C18", "Variable words and hoa refer to the right binding",
 """A variable word refers to the nearest enclosing quantified occurrence of the same variable in its scope, whatever its tone, and otherwise to a fresh free variable; hoa refers to the argument or abstraction whose clause most closely encloses it, and is supplied automatically to an argumentless relative clause that does not mention it.
 Restricting a variable or hoa by a relative clause yields a collective binding over its members.""",
 ["inputs"], "every nesting of quantified variables, relative clauses, abstractions and connectives",
 "The variable, hoa and relative-clause tests are TODO stubs.",
 ["logic/interp.go", "logic/simplify.go"], [("lookupVar, pushVar, pushHoa, varArgument, hoaArgument, relativeClause", "logic/interp.go"), ("addHoa", "logic/simplify.go")], ["logic.Interpret"],
 [("varScope", "stack of variables in scope", "logic/interp.go"), ("hoaScope", "stack of hoa referents", "logic/interp.go")])
prop("C19", "Predicates, quotes, clauses and abstractions become the right terms",
 """Predicate words become predicates named by their plain lower-case letters, serial predicates compose left to right, quoting and naming phrases yield the exact normalised quoted text in the right role, content clauses and abstractions yield the clause as a term, and possessive-like phrases relate to their argument.
 A term that defines a variable is substituted for it and its binding removed, and a predicate abstraction applied to exactly its arguments is reduced, without losing or capturing anything; this is left undone for a variable that is also used as a predicate.""",
 ["inputs"], "every predicate phrase in every position (verb, argument, relative, content, adverb, preposition)",
 "Tests use each construct once in at most two positions.",
 ["logic/interp.go", "logic/simplify.go"], [("predicate, poPredicate, makeLambda, wordPred, toString", "logic/interp.go"), ("sub, lambdaSub, swap, Plurality flattening", "logic/simplify.go")], ["logic.Interpret"])
prop("C20", "Adverbs and prepositions apply to the rest of their clause",
 """An adverb or prepositional phrase becomes a predication about the proposition made of everything after it in its clause, with the preposition's argument as second place;
 it is bound at the top when that proposition depends on no outer variable and in place, inside the scope of the preposition's argument, when it does.
 Several of them nest left over right.""",
 ["inputs"], "every clause with any sequence of adverbs, prepositional phrases and arguments",
 "Tests have one adverb and one preposition, both in a prenex.",
 ["logic/interp.go"], [("prenexStatement, preposition, predicationPreposition, adverb", "logic/interp.go")], ["logic.Interpret"])
prop("C21", "Interpretation is total, deterministic and leaves its input alone",
 """Interpreting any parsed text, any number of times, either gives the same formula every time, or reports nothing when the text has no sentence, or stops with a message naming a word whose meaning is documented as unimplemented; it never fails in any other way.
 The syntax tree is not changed, and every formula node that records its origin records the phrase of the syntax tree it came from.""",
 ["inputs", "histories"], "every accepted text, interpreted repeatedly",
 "Tests interpret each sentence once from a fresh parse and never look at the tree afterwards.",
 ["logic/interp.go", "logic/simplify.go"], [("Interpret", "logic/interp.go")], ["logic.Interpret"])
prop("C22", "Printed formulas are faithful and unambiguous",
 """The printed form of a formula shows every quantifier, restriction, connective, predicate, argument, gap, quote and abstraction in order, brackets every quantified or differently connected operand of a connective, and ends in a full stop;
 different variables get different names, the same variable always the same name, taken from the initial of what restricts it.
 The pretty form differs only in the code points used for the definite quantifier and for variable letters.""",
 ["inputs"], "every formula",
 "Tests compare about fifty strings; naming collisions and unused bindings are not covered.",
 ["logic/string.go"], [("print, varRune, parens, write", "logic/string.go")], ["logic.String", "logic.PrettyString"])
prop("C23", "Formula traversal and origin clearing reach every node",
 """Visiting a formula calls the function on every node exactly once per occurrence in depth-first pre-order: a binding, then its restriction, then its scope; a predication, then its predicate, then its present arguments; operands left to right.
 Clearing origins removes the recorded origin of every node of the formula and changes nothing else.""",
 ["inputs"], "every formula and subformula",
 "There is no test of formula traversal or of clearing.",
 ["logic/visit.go"], [("Visit, NillOutAST", "logic/visit.go")], ["logic.Node.Visit", "logic.NillOutAST"])
prop("C24", "The web service answers every request correctly and independently",
 """A POST of any text is answered with a JSON object that holds, for an accepted text, its bracketing, its tree, its normalised text, its parse tree and its formula (or the word fragment, or a message starting bug: when interpretation is unimplemented), and for a rejected text only the syntax error;
 a GET returns the page and any other method is refused with status 405. Answers depend only on the request's own body, whatever requests came before or run concurrently, and no request stops the service.""",
 ["inputs", "histories", "schedules"], "every sequence and interleaving of requests",
 "The server has no tests.",
 ["server/server.go"], [("rootHandler, safeInterp", "server/server.go")], ["HTTP responses"])
prop("C25", "The chat bot answers exactly the messages addressed to it",
 """In each joined channel the bot replies once, in order, to every message whose text (after removing the sender prefix of a message relayed by the bridge bot) starts with the command prefix, and to nothing else.
 The reply is the bracketing and formula of the rest of the message, or fragment or a message starting bug: in place of the formula, or the syntax error; no message, event or other channel's activity stops it or changes its replies.""",
 ["histories", "inputs", "schedules"], "every sequence of chat events in any number of channels",
 "The bot has no tests.",
 ["bot/bot.go"], [("run, parse, fixBridgeMessage, say", "bot/bot.go")], ["messages sent to the chat service"])
prop("C26", "Loading the dictionary gives every entry under its plain head word, or an error",
 """Loading sends the given query by POST and, on success, returns one entry per distinct plain lower-case toneless head word, the last one served winning, with definition, author and score unchanged;
 a service that is unreachable, replies with malformed data, reports failure or omits the data gives an error and never a panic.""",
 ["inputs", "fault_sequences"], "every reply a dictionary service can give",
 "The only test checks that one word is in the built-in list.",
 ["dict/dict.go"], [("Load", "dict/dict.go")], ["dict.Load"])
prop("C27", "The command line tool reports the library's results for its input",
 """Run on standard input or on a named file, the tool prints the parse tree, the syntax tree, the normalised text, the bracketing and the formula (or fragment) that the libraries give for exactly that text and exits with success (unless interpretation is unimplemented for it: failure, after the rest);
 for a text that does not parse it prints the failure tree and the error with its position and exits with failure, as it does for an unreadable file.""",
 ["inputs"], "every input text and way of supplying it",
 "The command has no tests.",
 ["main.go"], [("main", "main.go")], ["standard output", "exit status"])
prop("C28", "The dump of a tree or formula shows all of it",
 """Printing any syntax tree, any modifier in one, or any formula without origins with the pretty printer shows every node under the name of its type with all its present parts under their names, nested and in order:
 a word as its text in double quotes, a word used as a predicate, interjection or space as WordPredicate("..."), Interjection("...") or Space("..."), a variable as Variable(n) with a leading * when focused, a quote as Quote("..."), a predicate as its name in double quotes. What is attached to a word is not shown.""",
 ["inputs"], "every syntax tree and formula",
 "Nothing tests the dump that the web service and the command print.",
 ["ast/ast.go", "logic/logic.go"], [("PrettyPrint of WordPredicate, Interjection, Space, Word", "ast/ast.go"), ("PrettyPrint of Variable, Quote, Pred", "logic/logic.go")], ["pretty.String", "HTTP responses", "standard output"])
prop("C29", "The word list generator writes exactly the dictionary served, or nothing",
 """Run with an output file, the generator (dict/main.go) asks the Toadua service once, by POST of the query for everything, and on success writes, replacing what the file held,
 a formatted Go file of package dict that compiles and whose Words holds exactly the loaded entries under their heads, every text unchanged whatever characters it has;
 when the words cannot be loaded or the file cannot be written it prints the error (with what the service said, as it said it), exits with failure and leaves the file as it was.""",
 ["inputs", "fault_sequences"], "every reply a dictionary service can give and every state of the output file",
 "The generator is excluded from the build and has no tests.",
 ["dict/main.go", "dict/dict.go"], [("main", "dict/main.go")], ["output file", "standard output", "exit status"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
