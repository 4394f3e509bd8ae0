-------------------------------- MODULE Dump --------------------------------
(* The dump of a syntax tree or formula: what its text must show.  A node is *)
(* Name{ field: value ... }, a field to a line, indented by depth, in any     *)
(* order; a list is [ ... ] with an element to a line; words and other leaves *)
(* are short.  What is attached to a word is not shown.                       *)
EXTENDS Show

(* Code points of the letters used in names. *)
Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz01 :{}[]()*"
AlphaCode == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
               97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
               48,49,32,58,123,125,91,93,40,41,42>>
CodeTab == TLCEval([ch \in {SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet)} |-> AlphaCode[CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = ch]])
CodesOf(s) == [i \in 1..Len(s) |-> CodeTab[SubSeq(s, i, i)]]

(* The parts of each kind, in the order of the abstract tree. *)
CopKinds == {"CoP", "CoPSentence", "CoPStatement", "CoPPredicate", "TermSet", "CoPArgument", "CoPRelative", "CoPAdverb", "CoPPreposition", "CoPContent"}
LuKinds  == {"LUPhrase", "LUPredicate", "LURelative", "LUContent"}
PartNames ==
  [k \in {"Text", "StatementSentence", "Prenex", "PrenexStatement", "Predication", "PrefixedPredicate", "SerialPredicate", "MIPredicate",
          "POPredicate", "MOPredicate", "LinkedTerm", "PredicateArgument", "PredicationRelative", "PredicateAdverb", "PredicationPreposition",
          "PredicationContent", "Parenthetical", "Incidental", "Vocative"} |->
   CASE k = "Text" -> <<"Leading", "Discourse">>
     [] k = "StatementSentence" -> <<"JE", "Statement", "DA">>
     [] k = "Prenex" -> <<"Terms", "BI">>
     [] k = "PrenexStatement" -> <<"Prenex", "Statement">>
     [] k = "Predication" -> <<"Predicate", "Terms", "NA">>
     [] k = "PrefixedPredicate" -> <<"MU", "Predicate">>
     [] k = "SerialPredicate" -> <<"Left", "Right">>
     [] k = "MIPredicate" -> <<"MI", "Phrase", "GA">>
     [] k = "POPredicate" -> <<"PO", "Argument", "GA">>
     [] k = "MOPredicate" -> <<"MO", "Discourse", "TEO">>
     [] k = "LinkedTerm" -> <<"GO", "Argument">>
     [] k = "PredicateArgument" -> <<"Focus", "Quantifier", "Predicate", "Relative">>
     [] k = "PredicationRelative" -> <<"Predication">>
     [] k = "PredicateAdverb" -> <<"Predicate">>
     [] k = "PredicationPreposition" -> <<"Predicate", "Argument">>
     [] k = "PredicationContent" -> <<"Predication">>
     [] k = "Parenthetical" -> <<"KIO", "Discourse", "KI">>
     [] k = "Incidental" -> <<"JU", "Statement">>
     [] k = "Vocative" -> <<"HU", "Argument">>]

(* What is to be shown: [t, name, fields: name -> shown], [t, items] or [t, text]. *)
Lit(cs) == [t |-> "lit", text |-> cs]
Quoted(cs) == Lit(<<34>> \o cs \o <<34>>)
Called(name, cs) == Lit(CodesOf(name) \o <<40, 34>> \o cs \o <<34, 41>>)
NilShown == Lit(CodesOf("nil"))
Struct(name, ns, vs) == [t |-> "node", name |-> name, ns |-> ns, vs |-> vs]
ListOf(vs) == [t |-> "list", vs |-> vs]
RECURSIVE Shown(_)
Shown(x) ==
  CASE IsNil(x) -> NilShown
    [] IsWord(x) -> Quoted(x.T)
    [] x.k \in {"WordPredicate", "Interjection", "Space"} -> Called(x.k, x.c[1].T)
    [] x.k \in {"Discourse", "Terms"} -> ListOf([i \in 1..Len(x.c) |-> Shown(x.c[i])])
    [] x.k \in CopKinds ->
         LET c == IF x.k = "CoP" THEN x.c ELSE x.c[1].c IN
         Struct(x.k, <<"TO0", "RU", "Left", "TO1", "Right">>,
                IF Len(c) = 3 THEN <<NilShown, Shown(c[2]), Shown(c[1]), NilShown, Shown(c[3])>> ELSE [i \in 1..5 |-> Shown(c[i])])
    [] x.k \in LuKinds -> LET c == IF x.k = "LUPhrase" THEN x.c ELSE x.c[1].c IN Struct(x.k, <<"LU", "Statement">>, <<Shown(c[1]), Shown(c[2])>>)
    [] OTHER -> LET ns == PartNames[x.k] IN
         (* Without terms there is an empty list of them. *)
         Struct(x.k, ns, [i \in 1..Len(ns) |-> IF ns[i] = "Terms" /\ IsNil(x.c[i]) THEN ListOf(<<>>) ELSE Shown(x.c[i])])

IntText(n) == Lit(IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE Digits(n))
BoolText(b) == Lit(CodesOf(IF b THEN "true" ELSE "false"))
(* A formula whose origins have been cleared. *)
RECURSIVE FShown(_)
FStruct(name, ns, vs) == Struct(name, Append(ns, "AST"), Append(vs, NilShown))
FShown(x) ==
  CASE IsNil(x) -> NilShown
    [] x.k = "Variable" -> Lit((IF x.foc THEN <<42>> ELSE <<>>) \o CodesOf("Variable(") \o IntText(x.n).text \o <<41>>)
    [] x.k = "Quote" -> Called("Quote", x.text)
    [] x.k = "Pred" -> Quoted(x.name)
    [] x.k = "Binding" -> FStruct("Binding", <<"Quantifier", "N", "Focus", "Restriction", "Scope">>,
                                  <<Quoted(<<QuantSym(x.q)>>), IntText(x.n), BoolText(x.foc), FShown(x.c[1]), FShown(x.c[2])>>)
    [] x.k = "Connection" -> FStruct("Connection", <<"Connector", "Left", "Right">>, <<Quoted(<<ConnSym(x.con)>>), FShown(x.c[1]), FShown(x.c[2])>>)
    [] x.k = "Predication" -> FStruct("Predication", <<"Predicate", "Arguments">>, <<FShown(x.c[1]), ListOf([i \in 1..(Len(x.c) - 1) |-> FShown(x.c[i + 1])])>>)
    [] x.k = "Plurality" -> FStruct("Plurality", <<"Arguments">>, <<ListOf([i \in 1..Len(x.c) |-> FShown(x.c[i])])>>)
    [] x.k = "Abstraction" -> FStruct("Abstraction", <<"Statement">>, <<FShown(x.c[1])>>)
    [] x.k = "Serial" -> FStruct("Serial", <<"Left", "Right">>, <<FShown(x.c[1]), FShown(x.c[2])>>)
    [] x.k = "Swap" -> FStruct("Swap", <<"Predicate", "Pos">>, <<FShown(x.c[1]), IntText(x.pos)>>)

(* Reading a dump: the position after the value, or 0 when it is not there. *)
NewLine(d) == <<10>> \o [i \in 1..d |-> 9]
Past(s, p, lit) == IF p > 0 /\ p + Len(lit) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(lit) - 1) = lit THEN p + Len(lit) ELSE 0
RECURSIVE Reads(_, _, _, _), ReadItems(_, _, _, _, _), ReadFields(_, _, _, _, _)
Reads(s, p, w, d) ==
  IF p = 0 THEN 0
  ELSE CASE w.t = "lit" -> Past(s, p, w.text)
         [] w.t = "list" -> IF w.vs = <<>> THEN Past(s, p, <<91, 93>>) ELSE ReadItems(s, Past(s, p, <<91>>), w.vs, 1, d)
         [] w.t = "node" -> ReadFields(s, Past(s, p, CodesOf(w.name) \o <<123>>), w, 1..Len(w.ns), d)
ReadItems(s, p, vs, i, d) ==
  IF p = 0 THEN 0
  ELSE IF i > Len(vs) THEN Past(s, p, NewLine(d) \o <<93>>)
  ELSE ReadItems(s, Reads(s, Past(s, p, NewLine(d + 1)), vs[i], d + 1), vs, i + 1, d)
(* A part that is absent or empty may be left out; a node with one short part  *)
(* may be on one line.                                                         *)
EmptyShown(w) == w = NilShown \/ (w.t = "list" /\ w.vs = <<>>)
Either(a, b) == IF a > 0 THEN a ELSE b
FieldAt(s, p, name, d) == LET h == CodesOf(name) \o <<58, 32>> IN Either(Past(s, p, NewLine(d + 1) \o h), Past(s, p, h))
ReadFields(s, p, w, left, d) ==
  IF p = 0 THEN 0
  ELSE LET here == {i \in left : FieldAt(s, p, w.ns[i], d) > 0} IN
       IF here # {} THEN LET i == CHOOSE j \in here : TRUE IN
            ReadFields(s, Reads(s, FieldAt(s, p, w.ns[i], d), w.vs[i], d + 1), w, left \ {i}, d)
       ELSE IF \A i \in left : EmptyShown(w.vs[i]) THEN Either(Past(s, p, NewLine(d) \o <<125>>), Past(s, p, <<125>>))
       ELSE 0
ShowsAll(s, w) == Reads(s, 1, w, 0) = Len(s) + 1
=============================================================================
