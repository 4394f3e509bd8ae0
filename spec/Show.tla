-------------------------------- MODULE Show --------------------------------
(* How formulas are printed.  Works on observed formulas, in which bindings  *)
(* and variables have a number n.                                            *)
EXTENDS Logic

QuantSym(q) == CASE q = "The" -> 953 [] q = "Lambda" -> 955 [] q = "Each" -> 8704 [] q = "All" -> 923 [] q = "Some" -> 8707 [] q = "None" -> 8708 [] q = "Hi" -> 191
ConnSym(c) == CASE c = "And" -> 8743 [] c = "Or" -> 8744 [] c = "Ri" -> 63
GapSym == 183

IsBinOp(p) == p.name = EqualName \/ p.name = AmongName
RECURSIVE LeftPredication(_), LeftPred(_)
LeftPredication(x) == CASE x.k = "Predication" -> x [] x.k = "Connection" -> LeftPredication(x.c[1]) [] OTHER -> Nil
LeftPred(p) == CASE p.k = "Pred" -> p
                 [] p.k = "Serial" -> LET l == LeftPred(p.c[1]) IN IF ~IsNil(l) /\ l.name = <<cS,cH,cI>> THEN LeftPred(p.c[2]) ELSE l
                 [] OTHER -> Nil
(* The letter of a variable: the initial of what restricts it. *)
UpLetter(c) == IF c \in 97..122 THEN c - 32 ELSE c
LetterOf(restr) == LET d == LeftPredication(restr) IN
  IF IsNil(d) THEN 88 ELSE LET p == LeftPred(d.c[1]) IN IF IsNil(p) THEN 88 ELSE IF IsBinOp(p) THEN 88 ELSE UpLetter(p.name[1])

(* Numbers in the order in which they are met: variables first, then bindings *)
(* that are never used.                                                       *)
RECURSIVE NumsOf(_, _, _)
NumsOf(ns, i, acc) == IF i > Len(ns) THEN acc ELSE NumsOf(ns, i + 1, IF \E j \in 1..Len(acc) : acc[j] = ns[i] THEN acc ELSE Append(acc, ns[i]))
Dig(n) == <<48 + n>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN Dig(n) ELSE Digits(n \div 10) \o Dig(n % 10)
(* Names: [number -> name]. *)
NamesOf(f) ==
  LET ns == TLCEval(FNodes(f))
      vars == SelectSeq(ns, LAMBDA x : x.k = "Variable")
      bnds == SelectSeq(ns, LAMBDA x : x.k = "Binding")
      order == TLCEval(NumsOf([i \in 1..Len(vars) |-> vars[i].n] \o [i \in 1..Len(bnds) |-> bnds[i].n], 1, <<>>))
      bound == {bnds[i].n : i \in 1..Len(bnds)}
      letter(n) == IF n \notin bound THEN 85 ELSE LetterOf((CHOOSE b \in {bnds[i] : i \in 1..Len(bnds)} : b.n = n).c[1])
      ls == TLCEval([i \in 1..Len(order) |-> letter(order[i])])
      same(i) == {j \in 1..Len(order) : ls[j] = ls[i]}
      index(i) == Cardinality({j \in same(i) : j < i})
      name(i) == LET k == Cardinality(same(i)) IN
                 IF ls[i] = 88 /\ k \in {2, 3} THEN <<88 + index(i)>>
                 ELSE IF k = 1 THEN <<ls[i]>> ELSE <<ls[i]>> \o Digits(index(i))
  IN  [n \in {order[i] : i \in 1..Len(order)} |-> name(CHOOSE i \in 1..Len(order) : order[i] = n)]

(* nm: names by number; nm.the, the symbol of the definite quantifier. *)
QSym(nm, q) == IF q = "The" THEN nm.the ELSE QuantSym(q)
RECURSIVE Show(_, _), ShowArgs(_, _, _)
ShowOperand(nm, x, y) == IF y.k = "Predication" \/ (y.k = "Connection" /\ y.con = x.con) THEN Show(nm, y) ELSE <<40>> \o Show(nm, y) \o <<41>>
ShowArg(nm, x) == IF IsNil(x) THEN <<GapSym>> ELSE Show(nm, x)
ShowArgs(nm, as, i) == IF i > Len(as) THEN <<>> ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o ShowArg(nm, as[i]) \o ShowArgs(nm, as, i + 1)
Show(nm, x) ==
  CASE x.k = "Binding" ->
         IF IsNil(x.c[1]) THEN <<QSym(nm, x.q)>> \o nm.name[x.n] \o <<32>> \o Show(nm, x.c[2])
         ELSE <<91, QSym(nm, x.q)>> \o nm.name[x.n] \o <<32, 58, 32>> \o Show(nm, x.c[1]) \o <<93, 32>> \o Show(nm, x.c[2])
    [] x.k = "Connection" -> ShowOperand(nm, x, x.c[1]) \o <<32, ConnSym(x.con), 32>> \o ShowOperand(nm, x, x.c[2])
    [] x.k = "Predication" ->
         IF x.c[1].k = "Pred" /\ Len(x.c) = 3 /\ IsBinOp(x.c[1]) THEN ShowArg(nm, x.c[2]) \o x.c[1].name \o ShowArg(nm, x.c[3])
         ELSE Show(nm, x.c[1]) \o <<40>> \o ShowArgs(nm, Tail(x.c), 1) \o <<41>>
    [] x.k = "Variable" -> nm.name[x.n]
    [] x.k = "Plurality" -> <<8970>> \o ShowArgs(nm, x.c, 1) \o <<8969>>
    [] x.k = "Quote" -> IF x.full THEN <<171>> \o x.text \o <<187>> ELSE <<8249>> \o x.text \o <<8250>>
    [] x.k = "Pred" -> x.name
    [] x.k = "Abstraction" -> <<123>> \o Show(nm, x.c[1]) \o <<125>>
    [] x.k = "Serial" -> Show(nm, x.c[1]) \o <<8728>> \o Show(nm, x.c[2])
    [] x.k = "Swap" -> <<40, cM, cU, 32>> \o Show(nm, x.c[1]) \o <<41>>
ShowText(f) == Show([the |-> QuantSym("The"), name |-> NamesOf(f)], f) \o <<46>>
(* The pretty form: other code points for the definite quantifier (that of     *)
(* the formula, not a letter of a quote) and for the letters of variables.     *)
PrettyName(n) == [i \in 1..Len(n) |-> IF n[i] \in 65..90 THEN n[i] - 65 + 119860 ELSE n[i]]
PrettyText(f) == LET nm == NamesOf(f) IN Show([the |-> 8489, name |-> [n \in DOMAIN nm |-> PrettyName(nm[n])]], f) \o <<46>>
=============================================================================
