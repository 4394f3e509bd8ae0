------------------------------ MODULE Grammar ------------------------------
(* The Toaq grammar above the word level, as data: ordered choice,          *)
(* possessive repetition.  "Peg" gives it its meaning as a recogniser and   *)
(* tree builder, "Gen" as a generator of texts.                             *)
EXTENDS Morph

(* Terminals *)
N(c)      == [o |-> "N", c |-> c]                  \* neutral function word of class c
W(t)      == [o |-> "W", t |-> t]                  \* predicate word in tone t
F(c, t)   == [o |-> "F", c |-> c, t |-> t]         \* taking function word of class c in tone t
SP        == [o |-> "SP"]                          \* space and punctuation
QM        == [o |-> "Q"]                           \* question marks after moq
(* Combinators *)
R(n)      == [o |-> "R", n |-> n]
Opt(e)    == [o |-> "opt", e |-> e]
Plus(e)   == [o |-> "plus", e |-> e]
Alt(es)   == [o |-> "alt", es |-> es]
Sq(a, es) == [o |-> "seq", a |-> a, es |-> es]     \* a names the tree-building action
(* A sequence whose value is a node of kind k with the parts as children;    *)
(* modifiers (values of U) go to the preceding part.                         *)
Nd(k, es) == [o |-> "seq", a |-> "node", k |-> k, es |-> es]
Wrap(k, e) == [o |-> "seq", a |-> "wrap", k |-> k, es |-> <<e>>]

U == R("sp")

(* Connector phrases. *)
Aft(k, l, r)  == Wrap(k, Nd("CoP", <<l, U, N("RA"), U, r>>))
Fore(k, l, r) == Wrap(k, Nd("CoP", <<N("TO"), U, N("RA"), U, l, U, N("TO"), U, r>>))
(* Serial predicates: left member l, the rest in verb tone. *)
Serial(l) == Nd("SerialPredicate", <<l, U, R("serial_predicate")>>)
LUPhrase(t) == Nd("LUPhrase", <<F("LU", t), U, R("statement")>>)
LUPred(t) == Wrap("LUPredicate", LUPhrase(t))
MIPhrase(t) == Nd("MIPredicate", <<F("MI", t), U, R("MI_complement"), U, Opt(N("GA"))>>)
POPhrase(t) == Nd("POPredicate", <<F("PO", t), U, R("argument"), U, Opt(N("GA"))>>)
MOPhrase(t) == Nd("MOPredicate", <<F("MO", t), Sq("_", <<Opt(R("space_word"))>>), R("discourse"), U, N("TEO")>>)
Word1(t) == Wrap("WordPredicate", W(t))

Verb == THook  Arg == TAcute  Rel == TCaron  Con == TCirc  Prep == TGrave  Adv == TTilde

G == [
  text |-> Sq("text", <<Opt(R("space_word")), Opt(R("discourse"))>>),
  discourse |-> Sq("list", <<Plus(Alt(<< Sq("mod", <<R("sentence"), U>>), Sq("mod", <<R("fragment"), U>>) >>))>>),
  fragment |-> Sq("mod", << Alt(<<
       Aft("CoPRelative", R("relative_clause_1"), R("relative_clause")),
       R("relative_clause"), R("prenex"), R("terms"), R("freemod") >>), U>>),

  sentence |-> Alt(<< Aft("CoPSentence", R("sentence_1"), R("sentence")), R("sentence_1") >>),
  sentence_1 |-> Alt(<< R("sentence_2"), Fore("CoPSentence", R("sentence"), R("sentence")) >>),
  sentence_2 |-> Sq("sentence", << Opt(Sq("mod", <<N("KEO"), U>>)), R("statement"), U,
                                    Opt(Alt(<<N("DA"), Sq("mod", <<N("MOQ"), Opt(Wrap("Space", QM))>>)>>)) >>),

  statement |-> Sq("prenexst", << Opt(Sq("mod", <<R("prenex"), U>>)), R("statement_1") >>),
  statement_1 |-> Alt(<< Aft("CoPStatement", R("statement_2"), R("statement")), R("statement_2") >>),
  statement_2 |-> Alt(<< R("statement_3"), Fore("CoPStatement", R("statement"), R("statement")) >>),
  statement_3 |-> Nd("Predication", << R("predicate"), U, Opt(R("terms")), U, Opt(N("NA")) >>),
  prenex |-> Nd("Prenex", << R("terms"), U, N("BI") >>),

  predicate |-> R("serial_predicate"),
  predicate_1 |-> Alt(<< Aft("CoPPredicate", R("predicate_2"), R("predicate_1")), R("predicate_2") >>),
  predicate_2 |-> Alt(<< Fore("CoPPredicate", R("predicate"), R("predicate")), LUPred(Verb), MIPhrase(Verb), POPhrase(Verb), MOPhrase(Verb),
                         Sq("mod", <<Word1(Verb), U>>) >>),
  serial_predicate |-> Alt(<< Serial(R("predicate_1")), R("predicate_1") >>),

  terms |-> Alt(<< Sq("cons", <<R("term"), U, R("terms")>>), Sq("list1", <<R("term")>>) >>),
  term |-> Alt(<< R("linked_argument"), R("adverb"), R("termset"), R("prepositional_phrase") >>),
  linked_argument |-> Sq("linked", << Opt(Sq("mod", <<N("GO"), U>>)), R("argument") >>),
  termset |-> Alt(<< Fore("TermSet", R("terms_V"), R("terms_V")), Fore("TermSet", R("terms_IV"), R("terms_IV")),
                     Fore("TermSet", R("terms_III"), R("terms_III")), Fore("TermSet", R("terms_II"), R("terms_II")) >>),
  terms_II |-> Sq("cons", <<R("term"), U, Sq("list1", <<R("term")>>)>>),
  terms_III |-> Sq("cons", <<R("term"), U, R("terms_II")>>),
  terms_IV |-> Sq("cons", <<R("term"), U, R("terms_III")>>),
  terms_V |-> Sq("cons", <<R("term"), U, R("terms_IV")>>),

  argument |-> Alt(<< Aft("CoPArgument", R("arg_1"), R("argument")), R("arg_1") >>),
  arg_1 |-> Alt(<< Fore("CoPArgument", R("argument"), R("argument")), R("arg_2") >>),
  arg_2 |-> Nd("PredicateArgument", << Opt(Sq("mod", <<N("KU"), U>>)), Opt(Sq("mod", <<N("TU"), U>>)),
                                       R("arg_5"), U, Opt(R("relative_clause")) >>),
  arg_5 |-> Alt(<< Serial(R("arg_6")), R("arg_6") >>),
  arg_6 |-> Alt(<< R("content_clause"), Aft("CoPPredicate", R("arg_7"), R("predicate")), Fore("CoPPredicate", R("arg_5"), R("predicate")),
                   LUPred(Arg), MIPhrase(Arg), POPhrase(Arg), MOPhrase(Arg), R("arg_7") >>),
  arg_7 |-> Word1(Arg),

  relative_clause |-> Alt(<< Aft("CoPRelative", R("relative_clause_1"), R("relative_clause")),
                             Wrap("LURelative", LUPhrase(Rel)), R("relative_clause_1") >>),
  relative_clause_1 |-> Alt(<< Fore("CoPRelative", R("relative_clause"), R("relative_clause")), R("relative_clause_2") >>),
  relative_clause_2 |-> Alt(<< Aft("CoPRelative", R("relative_clause_3"), R("statement")), R("relative_clause_3") >>),
  relative_clause_3 |-> Wrap("PredicationRelative", Nd("Predication", << R("relative_predicate"), U, Opt(R("terms")), U, Opt(N("NA")) >>)),
  relative_predicate |-> Alt(<< Serial(R("relative_predicate_1")), R("relative_predicate_1") >>),
  relative_predicate_1 |-> Alt(<< Aft("CoPPredicate", R("relative_predicate_2"), R("predicate")),
                                  Fore("CoPPredicate", R("relative_predicate"), R("predicate")), R("relative_predicate_2") >>),
  relative_predicate_2 |-> Alt(<< MIPhrase(Rel), POPhrase(Rel), MOPhrase(Rel), Word1(Rel) >>),

  adverb |-> Alt(<< Aft("CoPAdverb", R("adverb_1"), R("adverb")), R("adverb_1") >>),
  adverb_1 |-> Alt(<< Fore("CoPAdverb", R("adverb"), R("adverb")),
                      Wrap("PredicateAdverb", Alt(<< Serial(R("adverb_3")), R("adverb_3") >>)) >>),
  adverb_3 |-> Alt(<< Aft("CoPPredicate", R("adverb_4"), R("predicate")), Fore("CoPPredicate", R("adverb_3"), R("predicate")),
                      LUPred(Adv), MIPhrase(Adv), POPhrase(Adv), MOPhrase(Adv), R("adverb_4") >>),
  adverb_4 |-> Word1(Adv),

  prepositional_phrase |-> Alt(<< Aft("CoPPreposition", R("prepositional_phrase_1"), R("prepositional_phrase")), R("prepositional_phrase_1") >>),
  prepositional_phrase_1 |-> Alt(<< Fore("CoPPreposition", R("prepositional_phrase"), R("prepositional_phrase")),
                                    Nd("PredicationPreposition", << R("preposition"), U, R("argument") >>) >>),
  preposition |-> Alt(<< Aft("CoPPredicate", R("preposition_1"), R("preposition")), R("preposition_1") >>),
  preposition_1 |-> Alt(<< Fore("CoPPredicate", R("preposition"), R("preposition")), R("preposition_2") >>),
  preposition_2 |-> Alt(<< Serial(R("preposition_3")), R("preposition_3") >>),
  preposition_3 |-> Alt(<< Aft("CoPPredicate", R("preposition_4"), R("predicate")), Fore("CoPPredicate", R("preposition"), R("predicate")),
                           LUPred(Prep), MIPhrase(Prep), POPhrase(Prep), MOPhrase(Prep), R("preposition_4") >>),
  preposition_4 |-> Word1(Prep),

  content_clause |-> Alt(<< Aft("CoPContent", R("content_clause_1"), R("statement")), R("content_clause_1") >>),
  content_clause_1 |-> Alt(<< Wrap("PredicationContent", Nd("Predication", << R("content_predicate"), U, Opt(R("terms")), U, Opt(N("NA")) >>)),
                              Wrap("LUContent", LUPhrase(Con)) >>),
  content_predicate |-> Alt(<< Serial(R("content_predicate_1")), R("content_predicate_1") >>),
  content_predicate_1 |-> Alt(<< Aft("CoPPredicate", R("content_predicate_2"), R("predicate")),
                                 Fore("CoPPredicate", R("content_predicate_2"), R("predicate")), R("content_predicate_2") >>),
  content_predicate_2 |-> Alt(<< MIPhrase(Con), POPhrase(Con), MOPhrase(Con), Word1(Con) >>),

  MI_complement |-> Alt(<< R("predicate"), R("argument"), R("adverb"), R("prepositional_phrase") >>),

  sp |-> Sq("_", << Opt(R("space_or_freemod")) >>),
  space_or_freemod |-> Sq("mod", << Alt(<< R("freemod"), R("space_word") >>), U >>),
  space_word |-> Wrap("Space", SP),
  freemod |-> Alt(<< Wrap("Interjection", N("BEI")),
                     Nd("Parenthetical", << N("KIO"), U, R("discourse"), U, N("KI") >>),
                     Nd("Incidental", << N("JU"), U, R("statement") >>),
                     Nd("Vocative", << N("HU"), U, R("argument") >>) >>)
]
RuleNames == <<
  "text","discourse","fragment","sentence","sentence_1","sentence_2","statement","statement_1","statement_2","statement_3","prenex",
  "predicate","predicate_1","predicate_2","serial_predicate","terms","term","linked_argument","termset","terms_II","terms_III","terms_IV","terms_V",
  "argument","arg_1","arg_2","arg_5","arg_6","arg_7","relative_clause","relative_clause_1","relative_clause_2","relative_clause_3",
  "relative_predicate","relative_predicate_1","relative_predicate_2","adverb","adverb_1","adverb_3","adverb_4",
  "prepositional_phrase","prepositional_phrase_1","preposition","preposition_1","preposition_2","preposition_3","preposition_4",
  "content_clause","content_clause_1","content_predicate","content_predicate_1","content_predicate_2","MI_complement",
  "sp","space_or_freemod","space_word","freemod" >>
RuleIx == [ n \in {RuleNames[i] : i \in 1..Len(RuleNames)} |-> CHOOSE i \in 1..Len(RuleNames) : RuleNames[i] = n ]

(* Which words can begin a phrase: FIRST sets, as a least fixed point over    *)
(* the grammar.  Used only to cut off hopeless attempts early.                *)
NClasses == <<"BI","DA","GA","GO","BEI","HU","JU","KU","KI","KIO","KEO","NA","RA","TU","TO","TEO","MOQ">>
NKey == [ c \in {NClasses[i] : i \in 1..Len(NClasses)} |-> CHOOSE i \in 1..Len(NClasses) : NClasses[i] = c ]
ToneIx == [ t \in ToneSet |-> CHOOSE i \in 1..7 : Tones[i] = t ]
TakeIx == [ c \in Taking |-> CASE c = "LU" -> 0 [] c = "MI" -> 1 [] c = "PO" -> 2 [] c = "MO" -> 3 ]
WKey(t) == 20 + ToneIx[t]
FKey(c, t) == 30 + 7 * TakeIx[c] + ToneIx[t]
SPKey == 60
QKey == 61
Keys == 0..61
RECURSIVE FirstOf(_, _), FirstSeq(_, _, _), NullableE(_)
NullableE(e) == CASE e.o = "opt" -> TRUE
                  [] e.o = "R" -> e.n \in {"text", "sp"}
                  [] e.o = "seq" -> \A j \in 1..Len(e.es) : NullableE(e.es[j])
                  [] e.o = "alt" -> \E j \in 1..Len(e.es) : NullableE(e.es[j])
                  [] OTHER -> FALSE
FirstSeq(fs, es, j) == IF j > Len(es) THEN {} ELSE
    FirstOf(fs, es[j]) \cup (IF NullableE(es[j]) THEN FirstSeq(fs, es, j + 1) ELSE {})
FirstOf(fs, e) == CASE e.o = "N" -> {NKey[e.c]} [] e.o = "W" -> {WKey(e.t)} [] e.o = "F" -> {FKey(e.c, e.t)}
                    [] e.o = "SP" -> {SPKey} [] e.o = "Q" -> {QKey}
                    [] e.o = "R" -> fs[RuleIx[e.n]]
                    [] e.o \in {"opt", "plus"} -> FirstOf(fs, e.e)
                    [] e.o = "seq" -> FirstSeq(fs, e.es, 1)
                    [] e.o = "alt" -> UNION { FirstOf(fs, e.es[j]) : j \in 1..Len(e.es) }
RECURSIVE FirstFix(_)
FirstFix(fs) == LET gs == [j \in 1..Len(RuleNames) |-> FirstOf(fs, G[RuleNames[j]])] IN IF gs = fs THEN fs ELSE FirstFix(gs)
First == FirstFix([j \in 1..Len(RuleNames) |-> {}])
(* CanStart[r][k]: rule r can begin with a word of key k (always, if it can be empty). *)
CanStart == [j \in 1..Len(RuleNames) |-> [kk \in Keys |-> kk \in First[j] \/ NullableE(R(RuleNames[j]))]]
KeysOf(x) == (IF x.w > 0 THEN {WKey(x.t)} ELSE {}) \cup (IF x.f # "" THEN {FKey(x.f, x.t)} ELSE {})
        \cup (IF x.nt # "" THEN {NKey[x.nt]} ELSE {}) \cup (IF x.sp > 0 THEN {SPKey} ELSE {}) \cup (IF x.q > 0 THEN {QKey} ELSE {})
=============================================================================
