-------------------------------- MODULE Logic --------------------------------
(* The meaning of a text: interpretation of its syntax tree as a formula,     *)
(* supplying of implicit arguments, simplification.                           *)
(*                                                                            *)
(* Formula nodes have k (kind), c (parts in order), a (origin: kind and first  *)
(* word of the phrase it comes from) and                                      *)
(*   Binding     q, id, foc; c = <<restriction or nil, scope or nil>>         *)
(*   Connection  con                                                          *)
(*   Predication c = predicate, then arguments (nil: gap)                     *)
(*   Variable    def (id of its binding, -1 if free), u (its own identity),   *)
(*               foc                                                          *)
(*   Quote text, full;  Pred name;  Swap pos;  Plurality, Abstraction, Serial *)
(*                                                                            *)
(* The interpreter's state: n, identities used so far; err, what made it stop;*)
(* the, bindings lifted to the top; hi, for each open clause the questions     *)
(* lifted to its top; lift, which arguments are lifted; hoa, what hoa stands   *)
(* for; vs, variable words in scope.                                          *)
EXTENDS Tree

Org(x) == <<x.k, FirstS(x)>>
NoOrg == <<"nil", -1>>
Bnd(q, id, r, a) == [k |-> "Binding", q |-> q, id |-> id, foc |-> FALSE, c |-> <<r, Nil>>, a |-> a]
Conn(con, l, r, a) == [k |-> "Connection", con |-> con, c |-> <<l, r>>, a |-> a]
Predn(p, args, a) == [k |-> "Predication", c |-> <<p>> \o args, a |-> a]
Var(def, u, foc, a) == [k |-> "Variable", def |-> def, u |-> u, foc |-> foc, c |-> <<>>, a |-> a]
Plur(args, a) == [k |-> "Plurality", c |-> args, a |-> a]
Quot(text, full, a) == [k |-> "Quote", text |-> text, full |-> full, c |-> <<>>, a |-> a]
Pred(name, a) == [k |-> "Pred", name |-> name, c |-> <<>>, a |-> a]
Abst(st, a) == [k |-> "Abstraction", c |-> <<st>>, a |-> a]
Seri(l, r, a) == [k |-> "Serial", c |-> <<l, r>>, a |-> a]
Swp(p, pos, a) == [k |-> "Swap", pos |-> pos, c |-> <<p>>, a |-> a]
(* Connected predicates, until they become connected predications. *)
PCon(con, l, r, a) == [k |-> "PC", con |-> con, c |-> <<l, r>>, a |-> a]

EqualName == <<61>>
AmongName == <<8826>>
(* Plain letters of a word. *)
Plain(T) == [i \in 1..Len(T) |-> Attr(T[i]).b]
PredName(T) == LET p == Plain(T) IN
  IF p = <<cM,cE,cA>> THEN AmongName ELSE IF p = <<cJ,cE,cQ,cT,cU>> THEN EqualName ELSE p
IsVarWord(x) == x.k = "WordPredicate" /\ LET p == Plain(x.c[1].T) IN
  Len(p) >= 2 /\ p[1] = cD /\ p[2] = cO /\ (Len(p) = 2 \/ p[3] \notin (VowelSet \cup {cQ}))
IsHoaWord(x) == x.k = "WordPredicate" /\ Plain(x.c[1].T) = <<cH,cO,cA>>
VarName(x) == Plain(x.c[1].T)

(* Connected phrases: connecting word, left, right. *)
ConOf(x) == LET c == x.c[1].c IN IF Len(c) = 3 THEN [ru |-> c[2], l |-> c[1], r |-> c[3]] ELSE [ru |-> c[2], l |-> c[3], r |-> c[5]]
IsRoi(x) == ConOf(x).ru.b = "roi"
ConnName(b) == CASE b = "ru" -> "And" [] b = "ra" -> "Or" [] b = "ri" -> "Ri" [] OTHER -> ""
Stop(st, w) == IF st.err = <<>> THEN [st EXCEPT !.err = w.T] ELSE st
StopCon(st, w) == IF ConnName(w.b) = "" THEN Stop(st, w) ELSE st

QuoteText(x) == TrimR(TrimL(Spell(x)))

(* ----- Free variables: bound neither at the top nor by a binding met before ----- *)
RECURSIVE FreeR(_, _), FreeKids(_, _, _)
FreeR(x, bs) == CASE x.k = "Variable" -> [b |-> bs, free |-> x.def >= 0 /\ x.def \notin bs]
                  [] x.k = "Binding" -> FreeKids(x.c, 1, bs \cup {x.id})
                  [] OTHER -> FreeKids(x.c, 1, bs)
FreeKids(c, i, bs) == IF i > Len(c) THEN [b |-> bs, free |-> FALSE]
  ELSE LET f == FreeR(c[i], bs) IN IF f.free THEN f ELSE FreeKids(c, i + 1, f.b)
TopIds(st) == {st.the[i].id : i \in 1..Len(st.the)}
HasFree(st, x) == FreeR(x, TopIds(st)).free
(* A lifted question leaves the bindings it is lifted over: references to      *)
(* those become free variables.                                                *)
RECURSIVE ClearR(_, _), ClearKids(_, _, _, _)
ClearR(x, bs) == CASE x.k = "Variable" -> [b |-> bs, t |-> IF x.def >= 0 /\ x.def \notin bs THEN [x EXCEPT !.def = -1] ELSE x]
                   [] OTHER -> LET r == ClearKids(x.c, 1, IF x.k = "Binding" THEN bs \cup {x.id} ELSE bs, <<>>) IN [b |-> r.b, t |-> [x EXCEPT !.c = r.c]]
ClearKids(c, i, bs, acc) == IF i > Len(c) THEN [b |-> bs, c |-> acc]
  ELSE LET r == ClearR(c[i], bs) IN ClearKids(c, i + 1, r.b, Append(acc, r.t))

BindScope(b, s) == IF IsNil(b) THEN s ELSE [b EXCEPT !.c[2] = s]

(* ----- Arguments of a predication: [v, pos], pos 0 for the next free place ----- *)
MaxOf(S) == CHOOSE n \in S : \A k \in S : k <= n
RECURSIVE PutNext(_, _, _)
PutNext(slots, as, i) ==
  IF i > Len(as) THEN slots
  ELSE LET j == CHOOSE k \in 1..Len(slots) : IsNil(slots[k]) /\ \A m \in 1..(k - 1) : ~IsNil(slots[m])
       IN PutNext([slots EXCEPT ![j] = as[i].v], as, i + 1)
OrderArgs(args) ==
  LET n == MaxOf({Len(args)} \cup {args[i].pos : i \in 1..Len(args)})
      put(p) == LET at == {i \in 1..Len(args) : args[i].pos = p} IN IF at = {} THEN Nil ELSE args[MaxOf(at)].v
  IN  PutNext([p \in 1..n |-> put(p)], SelectSeq(args, LAMBDA a : a.pos = 0), 1)
RECURSIVE Distribute(_, _, _)
Distribute(p, args, org) ==
  IF p.k = "PC" THEN Conn(p.con, Distribute(p.c[1], args, org), Distribute(p.c[2], args, org), p.a)
  ELSE Predn(p, OrderArgs(args), org)
RECURSIVE SerialOf(_, _, _)
SerialOf(l, r, org) ==
  IF l.k = "PC" THEN PCon(l.con, SerialOf(l.c[1], r, org), SerialOf(l.c[2], r, org), l.a)
  ELSE IF r.k = "PC" THEN PCon(r.con, SerialOf(l, r.c[1], org), SerialOf(l, r.c[2], org), r.a)
  ELSE Seri(l, r, org)

(* ----- Results: state and tree; for arguments also the binding to put in place ----- *)
RT(st, t) == [s |-> st, t |-> t]
RA(st, b, v) == [s |-> st, b |-> b, t |-> v]
Fresh(st) == [st EXCEPT !.n = @ + 1]
KeepVs(r, st) == [r EXCEPT !.s.vs = st.vs]
RECURSIVE LookUp(_, _, _)
LookUp(vs, name, i) == IF i = 0 THEN -1 ELSE IF vs[i][1] = name THEN vs[i][2] ELSE LookUp(vs, name, i - 1)
(* lambda x . pred(x, arg), as a predicate *)
LambdaOf(st, org, pred, arg) ==
  LET id == st.n IN
  RT([st EXCEPT !.n = @ + 2], Abst([Bnd("Lambda", id, Nil, org) EXCEPT !.c[2] = Predn(pred, <<Var(id, id + 1, FALSE, org), arg>>, NoOrg)], org))
ContentPred(st, org, sub) == LambdaOf(st, org, Pred(EqualName, org), Abst(sub, org))

QuantOf(q) == IF IsNil(q) THEN "The" ELSE CASE q.b = "ke" -> "The" [] q.b = "ja" -> "Lambda" [] q.b = "sa" -> "Some"
                                              [] q.b = "tu" -> "Each" [] q.b = "sia" -> "None" [] q.b = "hi" -> "Hi"
GoPos(w) == CASE w.b = "fi" -> 1 [] w.b = "go" -> 2 [] w.b = "cu" -> 3 [] w.b = "ta" -> 4
StatementKinds == {"PrenexStatement", "Predication", "CoPStatement"}
Lifted(st, x) == LET kk == FirstS(x) IN kk \in DOMAIN st.lift

RECURSIVE ISent(_, _), ISub(_, _), BindHi(_, _, _, _), IStmt(_, _, _), IPrenex(_, _, _, _), IPredicate(_, _), IContent(_, _),
          IPo(_, _, _, _, _), IPrep(_, _, _), IPredPrep(_, _, _, _, _), IAdverb(_, _, _), IRoi(_, _), IRoiL(_, _, _, _, _), IRoiR(_, _, _, _, _),
          IArg(_, _), IRel(_, _, _), IConRel(_, _)

ISent(st, x) ==
  IF x.k = "StatementSentence" THEN ISub(st, x.c[2])
  ELSE LET cc == ConOf(x)
           st1 == IF cc.ru.b # "ru" THEN Stop(st, cc.ru) ELSE st
           l == ISent(st1, cc.l)
           r == ISent(l.s, cc.r)
       IN  RT(r.s, Conn("And", l.t, r.t, Org(x)))

(* A clause, with the questions lifted to its top. *)
ISub(st, x) ==
  LET r == IStmt([st EXCEPT !.hi = Append(@, <<>>)], <<>>, x)
  IN  BindHi([r.s EXCEPT !.hi = st.hi], r.t, Last(r.s.hi), Len(Last(r.s.hi)))
BindHi(st, t, his, i) ==
  IF i = 0 THEN RT(st, t) ELSE
  LET bs == {st.vs[j][2] : j \in 1..Len(st.vs)} \cup {st.hoa[j] : j \in 1..Len(st.hoa)} \cup TopIds(st) \cup {his[j].id : j \in 1..(i - 1)}
      h == ClearR(his[i], bs).t
      gone == h.a[2]
  IN  BindHi([st EXCEPT !.lift = [kk \in DOMAIN @ \ {gone} |-> @[kk]]], BindScope(h, t), his, i - 1)

(* Statements.  A predication with terms is a prenex whose terms are passed on. *)
IStmt(st, args, x) ==
  CASE x.k = "PrenexStatement" ->
         KeepVs(IPrenex(st, args, [pa |-> x.c[1].c[2].b = "pa", body |-> x.c[2], a |-> Org(x)], x.c[1].c[1].c), st)
    [] x.k = "Predication" ->
         IF IsNil(x.c[2]) THEN LET p == IPredicate(st, x.c[1]) IN KeepVs(RT(p.s, Distribute(p.t, args, Org(x.c[1]))), st)
         ELSE KeepVs(IPrenex(st, args, [pa |-> TRUE, body |-> [k |-> "Bare", c |-> <<x.c[1]>>, a |-> Org(x)], a |-> <<"PrenexStatement", FirstS(x.c[2])>>], x.c[2].c), st)
    [] x.k = "Bare" -> LET p == IPredicate(st, x.c[1]) IN KeepVs(RT(p.s, Distribute(p.t, args, x.a)), st)
    [] x.k = "CoPStatement" ->
         LET cc == ConOf(x)
             l == IStmt(StopCon(st, cc.ru), args, cc.l)
             r == IStmt(l.s, args, cc.r)
         IN  KeepVs(RT(r.s, Conn(ConnName(cc.ru.b), l.t, r.t, Org(x))), st)

Both(l, r, con, org) == RT(r.s, Conn(con, l.t, r.t, org))
IPrenex(st, args, px, terms) ==
  IF terms = <<>> THEN KeepVs(IStmt(st, IF px.pa THEN args ELSE <<>>, px.body), st)
  ELSE LET t == Head(terms)
           rest == Tail(terms)
  IN KeepVs(
  CASE t.k = "TermSet" ->
         LET cc == ConOf(t)
             l == IPrenex(StopCon(st, cc.ru), args, px, cc.l.c \o rest)
             r == IPrenex(l.s, args, px, cc.r.c \o rest)
         IN  Both(l, r, ConnName(cc.ru.b), Org(t))
    [] t.k = "CoPArgument" /\ IsRoi(t) ->
         LET b == IRoi(st, t)
             r == IPrenex(b.s, Append(args, [v |-> b.t, pos |-> 0]), px, rest)
         IN  RT(r.s, BindScope(b.b, r.t))
    [] t.k = "CoPArgument" /\ ~IsRoi(t) ->
         LET cc == ConOf(t)
             l == IPrenex(StopCon(st, cc.ru), args, px, <<cc.l>> \o rest)
             r == IPrenex(l.s, args, px, <<cc.r>> \o rest)
         IN  Both(l, r, ConnName(cc.ru.b), Org(t))
    [] t.k = "PredicateArgument" ->
         LET b == IArg(st, t)
             bb == IF ~IsNil(t.c[1]) /\ ~IsNil(b.b) /\ ~px.pa THEN [b.b EXCEPT !.foc = TRUE] ELSE b.b
             r == IPrenex(b.s, Append(args, [v |-> b.t, pos |-> 0]), px, rest)
         IN  RT(r.s, BindScope(bb, r.t))
    [] t.k = "LinkedTerm" ->
         LET arg == t.c[2] IN
         IF arg.k = "CoPArgument" /\ ~IsRoi(arg) THEN
           LET cc == ConOf(arg)
               l == IPrenex(StopCon(st, cc.ru), args, px, <<Node("LinkedTerm", <<t.c[1], cc.l>>)>> \o rest)
               r == IPrenex(l.s, args, px, <<Node("LinkedTerm", <<t.c[1], cc.r>>)>> \o rest)
           IN  Both(l, r, ConnName(cc.ru.b), Org(arg))
         ELSE
           LET b == IF arg.k = "CoPArgument" THEN IRoi(st, arg) ELSE IArg(st, arg)
               r == IPrenex(b.s, Append(args, [v |-> b.t, pos |-> GoPos(t.c[1])]), px, rest)
           IN  RT(r.s, BindScope(b.b, r.t))
    [] t.k \in {"PredicationPreposition", "CoPPreposition"} ->
         LET sub == IPrenex(st, args, px, rest) IN
         IF HasFree(sub.s, sub.t) THEN IPrep(sub.s, t, [k |-> "tail", args |-> args, px |-> px, terms |-> rest])
         ELSE LET id == sub.s.n
                  v == Var(id, id + 1, FALSE, Org(t))
                  cp == ContentPred([sub.s EXCEPT !.n = @ + 2], px.a, sub.t)
                  b == Bnd("The", id, Predn(cp.t, <<v>>, Org(t)), Org(t))
              IN  IPrep([cp.s EXCEPT !.the = Append(@, b)], t, v)
    [] t.k \in {"PredicateAdverb", "CoPAdverb"} ->
         LET sub == IPrenex(st, args, px, rest)
             id == sub.s.n
             v == Var(id, id + 1, FALSE, Org(t))
             cp == ContentPred([sub.s EXCEPT !.n = @ + 2], px.a, sub.t)
             b(q) == Bnd(q, id, Predn(cp.t, <<v>>, Org(t)), Org(t))
         IN  IF HasFree(cp.s, sub.t) THEN LET r == IAdverb(cp.s, t, v) IN RT(r.s, BindScope(b("All"), r.t))
             ELSE IAdverb([cp.s EXCEPT !.the = Append(@, b("The"))], t, v), st)

IPredicate(st, x) ==
  CASE x.k = "WordPredicate" ->
         IF IsVarWord(x) THEN RT(Fresh(st), Var(LookUp(st.vs, VarName(x), Len(st.vs)), st.n, FALSE, Org(x)))
         ELSE IF IsHoaWord(x) THEN RT(Fresh(st), Var(IF st.hoa = <<>> THEN -1 ELSE Last(st.hoa), st.n, FALSE, Org(x)))
         ELSE RT(st, Pred(PredName(x.c[1].T), Org(x)))
    [] x.k = "SerialPredicate" ->
         LET l == IPredicate(st, x.c[1]) r == IPredicate(l.s, x.c[2]) IN RT(r.s, SerialOf(l.t, r.t, Org(x)))
    [] x.k = "MIPredicate" ->
         LET w == x.c[1]
             p == IF w.b = "mi" THEN Swp(Pred(<<cC,cH,cU,cA>>, Org(w)), 1, Org(w)) ELSE Pred(EqualName, Org(w))
         IN  LambdaOf(st, Org(x), p, Quot(QuoteText(x.c[2]), FALSE, Org(x.c[2])))
    [] x.k = "MOPredicate" -> LambdaOf(st, Org(x), Pred(EqualName, Org(x)), Quot(QuoteText(x.c[2]), TRUE, Org(x.c[2])))
    [] x.k = "POPredicate" ->
         LET p == Pred(IF x.c[1].b = "po" THEN <<cR,cA,cQ>> ELSE EqualName, Org(x))
             id == st.n
             r == IPo([st EXCEPT !.n = @ + 2], x, p, Var(id, id + 1, FALSE, Org(x)), x.c[2])
         IN  RT(r.s, Abst([Bnd("Lambda", id, Nil, Org(x)) EXCEPT !.c[2] = r.t], Org(x)))
    [] x.k = "LUPredicate" ->
         LET lu == x.c[1] IN
         IF lu.c[1].b = "lu" THEN
           LET id == st.n
               r == ISub([st EXCEPT !.n = @ + 1, !.hoa = Append(@, id)], lu.c[2])
           IN  RT([r.s EXCEPT !.hoa = st.hoa], Abst(BindScope(Bnd("Lambda", id, Nil, Org(x)), r.t), Org(x)))
         ELSE LET r == ISub(st, lu.c[2]) IN RT(r.s, Abst(r.t, Org(x)))
    [] x.k = "CoPPredicate" ->
         LET cc == ConOf(x)
             l == IPredicate(StopCon(st, cc.ru), cc.l)
             r == IPredicate(l.s, cc.r)
         IN  RT(r.s, PCon(ConnName(cc.ru.b), l.t, r.t, Org(x)))
    [] x.k = "CoPContent" ->
         LET cc == ConOf(x)
             l == IContent(StopCon(st, cc.ru), cc.l)
             r == IContent(l.s, cc.r)
         IN  RT(r.s, PCon(ConnName(cc.ru.b), l.t, r.t, Org(x)))
    [] x.k = "LUContent" -> LET r == ISub(st, x.c[1].c[2]) IN ContentPred(r.s, Org(x), r.t)
    [] x.k = "PredicationContent" -> LET r == ISub(st, x.c[1]) IN ContentPred(r.s, Org(x), r.t)
IContent(st, x) == IF x.k \in StatementKinds THEN LET r == ISub(st, x) IN ContentPred(r.s, Org(x), r.t) ELSE IPredicate(st, x)

IPo(st, x, p, v0, arg) ==
  IF arg.k = "CoPArgument" /\ ~IsRoi(arg) THEN
    LET cc == ConOf(arg)
        l == IPo(StopCon(st, cc.ru), x, p, v0, cc.l)
        r == IPo(l.s, x, p, v0, cc.r)
    IN  KeepVs(Both(l, r, ConnName(cc.ru.b), Org(x)), st)
  ELSE LET b == IF arg.k = "CoPArgument" THEN IRoi(st, arg) ELSE IArg(st, arg)
       IN  KeepVs(RT(b.s, BindScope(b.b, Predn(p, <<v0, b.t>>, Org(x)))), st)

(* Prepositional phrases about v0: a variable standing for the rest of the     *)
(* clause, or the rest itself, to be interpreted in the scope of the argument. *)
IPrep(st, x, v0) ==
  IF x.k = "PredicationPreposition" THEN KeepVs(IPredPrep(st, x, x.c[1], v0, x.c[2]), st)
  ELSE LET cc == ConOf(x)
           l == IPrep(StopCon(st, cc.ru), cc.l, v0)
           r == IPrep(l.s, cc.r, v0)
       IN  KeepVs(Both(l, r, ConnName(cc.ru.b), Org(x)), st)
IPredPrep(st, x, p, v0, arg) ==
  IF arg.k = "CoPArgument" /\ ~IsRoi(arg) THEN
    LET cc == ConOf(arg)
        l == IPredPrep(StopCon(st, cc.ru), x, p, v0, cc.l)
        r == IPredPrep(l.s, x, p, v0, cc.r)
    IN  KeepVs(Both(l, r, ConnName(cc.ru.b), Org(arg)), st)
  ELSE LET b == IF arg.k = "CoPArgument" THEN IRoi(st, arg) ELSE IArg(st, arg)
           about(s, v) == LET q == IPredicate(s, p) IN RT(q.s, Distribute(q.t, <<[v |-> v, pos |-> 0], [v |-> b.t, pos |-> 0]>>, Org(x)))
       IN  IF v0.k = "Variable" THEN LET r == about(b.s, v0) IN KeepVs(RT(r.s, BindScope(b.b, r.t)), st)
           ELSE LET sub == IPrenex(b.s, v0.args, v0.px, v0.terms)
                    id == sub.s.n
                    v == Var(id, id + 1, FALSE, v0.px.a)
                    cp == ContentPred([sub.s EXCEPT !.n = @ + 2], v0.px.a, sub.t)
                    b1 == Bnd("All", id, Predn(cp.t, <<v>>, v0.px.a), v0.px.a)
                    r == about(cp.s, v)
                IN  KeepVs(RT(r.s, BindScope(b.b, BindScope(b1, r.t))), st)
IAdverb(st, x, v) ==
  IF x.k = "PredicateAdverb" THEN
    LET q == IPredicate(st, x.c[1]) IN KeepVs(RT(q.s, Distribute(q.t, <<[v |-> v, pos |-> 0]>>, Org(x))), st)
  ELSE LET cc == ConOf(x)
           l == IAdverb(StopCon(st, cc.ru), cc.l, v)
           r == IAdverb(l.s, cc.r, v)
       IN  KeepVs(Both(l, r, ConnName(cc.ru.b), Org(x)), st)

(* Arguments joined by roi: the one plural made of both. *)
IRoi(st, x) ==
  LET id == st.n
      v == Var(id, id + 1, FALSE, Org(x))
      cc == ConOf(x)
      r == IRoiL([st EXCEPT !.n = @ + 2], x, v, cc.l, cc.r)
  IN  KeepVs(RA(r.s, Bnd("The", id, r.t, Org(x)), v), st)
IRoiL(st, x, v, l, r) ==
  IF l.k = "CoPArgument" /\ ~IsRoi(l) THEN
    LET cc == ConOf(l)
        a == IRoiL(StopCon(st, cc.ru), x, v, cc.l, r)
        b == IRoiL(a.s, x, v, cc.r, r)
    IN  Both(a, b, ConnName(cc.ru.b), Org(l))
  ELSE LET b == IF l.k = "CoPArgument" THEN IRoi(st, l) ELSE IArg(st, l)
           q == IRoiR(b.s, x, v, b.t, r)
       IN  RT(q.s, BindScope(b.b, q.t))
IRoiR(st, x, v, lv, r) ==
  IF r.k = "CoPArgument" /\ ~IsRoi(r) THEN
    LET cc == ConOf(r)
        a == IRoiR(StopCon(st, cc.ru), x, v, lv, cc.l)
        b == IRoiR(a.s, x, v, lv, cc.r)
    IN  Both(a, b, ConnName(cc.ru.b), Org(r))
  ELSE LET b == IF r.k = "CoPArgument" THEN IRoi(st, r) ELSE IArg(st, r)
       IN  RT(b.s, BindScope(b.b, Predn(Pred(EqualName, v.a), <<v, Plur(<<lv, b.t>>, v.a)>>, v.a)))

(* A single argument: the binding to put in place (nil if none), its variable. *)
AmongPred(vy, vx, a) == Predn(Pred(AmongName, a), <<vy, vx>>, a)
IArg(st, x) ==
  LET qu == x.c[2]  p == x.c[3]  rel == x.c[4]  a == Org(x)  id == st.n
      \* members of vx that satisfy the relative clause, if there is one
      members(s, vx) ==
        LET y == s.n
            vy == Var(y, y + 1, FALSE, a)
            am == AmongPred(vy, vx, a)
            s1 == [s EXCEPT !.n = @ + 2]
        IN IF IsNil(rel) THEN RA(s1, Bnd("All", y, am, a), vy)
           ELSE LET r == IRel(s1, y, rel) IN RA(r.s, Bnd("All", y, Conn("And", am, r.t, NoOrg), a), vy)
  IN
  CASE Lifted(st, x) -> RA(Fresh(st), Nil, Var(st.lift[FirstS(x)], id, FALSE, a))
    [] ~Lifted(st, x) /\ IsVarWord(p) ->
         IF ~IsNil(qu) THEN
           LET s1 == [st EXCEPT !.n = @ + 2, !.vs = Append(@, <<VarName(p), id>>)]
               v == Var(id, id + 1, FALSE, a)
           IN IF IsNil(rel) THEN RA(s1, Bnd(QuantOf(qu), id, Nil, a), v)
              ELSE LET r == IRel(s1, id, rel) IN RA(r.s, Bnd(QuantOf(qu), id, r.t, a), v)
         ELSE LET vx == Var(LookUp(st.vs, VarName(p), Len(st.vs)), id, FALSE, a) IN
              IF IsNil(rel) THEN RA(Fresh(st), Nil, vx) ELSE members(Fresh(st), vx)
    [] ~Lifted(st, x) /\ IsHoaWord(p) ->
         IF st.hoa = <<>> THEN RA(Fresh(st), Nil, Var(-1, id, FALSE, a))
         ELSE LET vx == Var(Last(st.hoa), id, FALSE, a) IN
              IF IsNil(qu) /\ IsNil(rel) THEN RA(Fresh(st), Nil, vx) ELSE members(Fresh(st), vx)
    [] OTHER ->
         LET v == Var(id, id + 1, ~IsNil(x.c[1]), a)
             q == IPredicate([st EXCEPT !.n = @ + 2], p)
             main == Distribute(q.t, <<[v |-> v, pos |-> 0]>>, Org(p))
             r == IF IsNil(rel) THEN RT(q.s, main) ELSE LET rr == IRel(q.s, id, rel) IN RT(rr.s, Conn("And", main, rr.t, a))
             b == Bnd(QuantOf(qu), id, r.t, a)
             remember(s) == [s EXCEPT !.lift = [kk \in DOMAIN @ \cup {a[2]} |-> IF kk = a[2] THEN id ELSE @[kk]]]
         IN CASE b.q = "The" -> IF HasFree(r.s, b) THEN RA(r.s, [b EXCEPT !.q = "All"], v)
                                ELSE RA([remember(r.s) EXCEPT !.the = Append(@, b)], Nil, v)
              [] b.q = "Hi" -> RA([remember(r.s) EXCEPT !.hi[Len(r.s.hi)] = Append(@, b)], Nil, v)
              [] OTHER -> RA(r.s, b, v)

(* A relative clause on the binding id (-1: that of the whole connected clause). *)
IRel(st, id, x) ==
  LET s0 == IF id < 0 THEN st ELSE [st EXCEPT !.hoa = Append(@, id)]
      done(r) == RT([r.s EXCEPT !.hoa = st.hoa, !.vs = st.vs], r.t)
  IN
  CASE x.k = "PredicationRelative" -> done(ISub(s0, x.c[1]))
    [] x.k = "LURelative" -> done(ISub(s0, x.c[1].c[2]))
    [] x.k = "CoPRelative" ->
         LET cc == ConOf(x)
             l == IConRel(StopCon(s0, cc.ru), cc.l)
             r == IConRel(l.s, cc.r)
         IN  done(Both(l, r, ConnName(cc.ru.b), Org(x)))
IConRel(st, x) == IF x.k \in StatementKinds THEN ISub(st, x) ELSE IRel(st, -1, x)

Start0 == [n |-> 0, err |-> <<>>, the |-> <<>>, hi |-> <<>>, lift |-> <<>>, hoa |-> <<>>, vs |-> <<>>]
RECURSIVE IDisc(_, _, _, _)
IDisc(st, t, items, i) ==
  IF i > Len(items) THEN RT(st, t)
  ELSE IF items[i].k \notin {"StatementSentence", "CoPSentence"} THEN IDisc(st, t, items, i + 1)
  ELSE LET r == ISent(st, items[i]) IN
       IDisc(r.s, IF IsNil(t.t) THEN [t |-> r.t, a |-> t.a] ELSE [t |-> Conn("And", t.t, r.t, t.a), a |-> t.a], items, i + 1)
RECURSIVE BindAll(_, _, _)
BindAll(bs, i, t) == IF i = 0 THEN t ELSE BindAll(bs, i - 1, BindScope(bs[i], t))

(* ----- Implicit hoa ----- *)
RECURSIVE AddHoa(_, _), AddHoaKids(_, _, _, _, _)
AddHoaKids(c, i, b, acc, used) == IF i > Len(c) THEN [c |-> acc, used |-> used]
  ELSE LET r == AddHoa(c[i], b) IN AddHoaKids(c, i + 1, b, Append(acc, r.t), used \cup r.used)
(* b: the binding whose restriction this is at the top of (-1: none). *)
AddHoa(x, b) ==
  CASE x.k = "Variable" -> [t |-> x, used |-> {x.def}]
    [] x.k = "Binding" -> LET r == AddHoa(x.c[1], x.id) s == AddHoa(x.c[2], -1) IN [t |-> [x EXCEPT !.c = <<r.t, s.t>>], used |-> r.used \cup s.used]
    [] x.k = "Connection" -> LET r == AddHoaKids(x.c, 1, b, <<>>, {}) IN [t |-> [x EXCEPT !.c = r.c], used |-> r.used]
    [] OTHER -> LET r == AddHoaKids(x.c, 1, -1, <<>>, {}) IN
         IF x.k = "Predication" /\ b >= 0 /\ Len(x.c) = 1 /\ b \notin r.used
         THEN [t |-> [x EXCEPT !.c = r.c \o <<Var(b, 0, FALSE, NoOrg)>>], used |-> r.used]
         ELSE [t |-> [x EXCEPT !.c = r.c], used |-> r.used]

(* ----- Simplification ----- *)
RECURSIVE PredVars(_)
PredVars(x) ==
  LET ps == CASE x.k \in {"Predication", "Swap"} -> {x.c[1]} [] x.k = "Serial" -> {x.c[1], x.c[2]} [] OTHER -> {}
  IN  {p.def : p \in {q \in ps : q.k = "Variable"}} \cup UNION {PredVars(x.c[i]) : i \in 1..Len(x.c)}
(* z: [sub: binding ids to terms, pv: bindings used as predicates] *)
WithSub(z, id, v) == [z EXCEPT !.sub = [kk \in DOMAIN @ \cup {id} |-> IF kk = id THEN v ELSE @[kk]]]
(* The term that a binding defines its variable to be (nil if it does not). *)
Defined(z, b) ==
  LET r == b.c[1] IN
  IF r.k # "Predication" \/ b.q \notin {"The", "All"} \/ Len(r.c) # 3 THEN Nil
  ELSE IF r.c[1].k # "Pred" \/ IsNil(r.c[2]) \/ IsNil(r.c[3]) THEN Nil
  ELSE IF r.c[1].name # EqualName THEN Nil
  ELSE LET lv == IF r.c[2].k = "Variable" THEN r.c[2] ELSE r.c[3]
           rv == IF r.c[2].k = "Variable" THEN r.c[3] ELSE r.c[2]
       IN IF lv.k # "Variable" THEN Nil
          ELSE IF lv.def # b.id \/ lv.def \in z.pv \/ rv.k \notin {"Quote", "Plurality", "Abstraction"} THEN Nil ELSE rv
(* Leading lambdas of an abstraction, as far as none is used as a predicate. *)
RECURSIVE Lambdas(_, _)
Lambdas(z, x) == IF x.k = "Binding" /\ x.q = "Lambda" /\ IsNil(x.c[1]) THEN (IF x.id \in z.pv THEN -1000 ELSE 1 + Lambdas(z, x.c[2])) ELSE 0
RECURSIVE Apply(_, _, _, _)
Apply(z, x, args, i) == IF i > Len(args) THEN [z |-> z, t |-> x] ELSE Apply(WithSub(z, x.id, args[i]), x.c[2], args, i + 1)
ZT(z, t) == [z |-> z, t |-> t]
RECURSIVE Simp(_, _), SimpKids(_, _, _, _)
SimpKids(z, c, i, acc) == IF i > Len(c) THEN [z |-> z, c |-> acc] ELSE LET r == Simp(z, c[i]) IN SimpKids(r.z, c, i + 1, Append(acc, r.t))
SimpFlat(cs) == FlatMap(LAMBDA y : IF y.k = "Plurality" THEN y.c ELSE <<y>>, cs)
Simp(z, x) ==
  CASE x.k \in {"nil", "Quote", "Pred"} -> ZT(z, x)
    [] x.k = "Variable" -> ZT(z, IF x.def \in DOMAIN z.sub THEN z.sub[x.def] ELSE x)
    [] x.k = "Binding" ->
         LET r == Simp(z, x.c[1])
             b == [x EXCEPT !.c[1] = r.t]
             d == Defined(r.z, b)
         IN IF ~IsNil(d) THEN Simp(WithSub(r.z, x.id, d), x.c[2])
            ELSE LET s == Simp(r.z, x.c[2]) IN ZT(s.z, [b EXCEPT !.c[2] = s.t])
    [] x.k = "Plurality" -> LET r == SimpKids(z, x.c, 1, <<>>) IN ZT(r.z, [x EXCEPT !.c = SimpFlat(r.c)])
    [] x.k = "Predication" ->
         LET as == SimpKids(z, Tail(x.c), 1, <<>>)
             p == x.c[1]
         IN CASE p.k = "Swap" ->
                   LET n == MaxOf({p.pos + 1, Len(as.c)})
                       ext == [i \in 1..n |-> IF i <= Len(as.c) THEN as.c[i] ELSE Nil]
                       sw == [ext EXCEPT ![1] = ext[p.pos + 1], ![p.pos + 1] = ext[1]]
                   IN  Simp(as.z, [x EXCEPT !.c = <<p.c[1]>> \o sw])
              [] p.k = "Abstraction" /\ Len(as.c) > 0 /\ (\A i \in 1..Len(as.c) : ~IsNil(as.c[i])) /\ Lambdas(z, p.c[1]) = Len(as.c) ->
                   LET r == Apply(as.z, p.c[1], as.c, 1) IN Simp(r.z, r.t)
              [] p.k = "Variable" -> ZT(as.z, [x EXCEPT !.c = <<p>> \o as.c])
              [] OTHER -> LET r == Simp(as.z, p) IN ZT(r.z, [x EXCEPT !.c = <<r.t>> \o as.c])
    [] x.k \in {"Serial", "Swap"} ->       \* a variable used as a predicate stays
         LET part(zz, y) == IF y.k = "Variable" THEN ZT(zz, y) ELSE Simp(zz, y)
             l == part(z, x.c[1])
         IN IF x.k = "Swap" THEN ZT(l.z, [x EXCEPT !.c = <<l.t>>])
            ELSE LET r == part(l.z, x.c[2]) IN ZT(r.z, [x EXCEPT !.c = <<l.t, r.t>>])
    [] x.k \in {"Connection", "Abstraction"} -> LET r == SimpKids(z, x.c, 1, <<>>) IN ZT(r.z, [x EXCEPT !.c = r.c])

(* The interpretation of a text: [err, t]; t is nil for a text without sentences. *)
Interpret(text) ==
  LET d == text.c[2]
      r == IDisc(Start0, [t |-> Nil, a |-> Org(d)], d.c, 1)
  IN  IF r.s.err # <<>> THEN [err |-> r.s.err, t |-> Nil]
      ELSE IF IsNil(r.t.t) THEN [err |-> <<>>, t |-> Nil]
      ELSE LET f == TLCEval(AddHoa(BindAll(r.s.the, Len(r.s.the), r.t.t), -1).t)
           IN  [err |-> <<>>, t |-> Simp([sub |-> <<>>, pv |-> PredVars(f)], f).t]

(* ----- Comparison of formulas ----- *)
(* Everything but origins and numbers, and which binding each variable has.    *)
(* m: bindings and free variables of the left paired with those of the right.  *)
IdOf(x) == IF x.def >= 0 THEN <<"b", x.def>> ELSE <<"u", x.u>>
RECURSIVE FDiff(_, _, _), FKids(_, _, _, _)
FHead(a, b) ==
  CASE a.k # b.k -> "expected " \o a.k \o " got " \o b.k
    [] a.k = "Binding" -> IF a.q # b.q THEN "expected a binding " \o a.q \o " got " \o b.q
                          ELSE IF a.foc # b.foc THEN "focus of a binding" ELSE ""
    [] a.k = "Connection" -> IF a.con # b.con THEN "expected connective " \o a.con \o " got " \o b.con ELSE ""
    [] a.k = "Variable" -> IF (a.def >= 0) # (b.def >= 0) THEN (IF a.def >= 0 THEN "expected a bound variable" ELSE "expected a free variable")
                           ELSE IF a.foc # b.foc THEN "focus of a variable" ELSE ""
    [] a.k = "Quote" -> IF a.text # b.text \/ a.full # b.full THEN "expected quote " \o ToString(a.text) \o " got " \o ToString(b.text) ELSE ""
    [] a.k = "Pred" -> IF a.name # b.name THEN "expected predicate " \o ToString(a.name) \o " got " \o ToString(b.name) ELSE ""
    [] a.k = "Swap" -> IF a.pos # b.pos THEN "position of swap" ELSE ""
    [] OTHER -> ""
FDiff(a, b, m) ==
  LET h == FHead(a, b) IN
  IF h # "" THEN [d |-> h, m |-> m]
  ELSE IF Len(a.c) # Len(b.c) THEN [d |-> "expected " \o ToString(Len(a.c)) \o " parts of " \o a.k \o " got " \o ToString(Len(b.c)), m |-> m]
  ELSE LET m1 == CASE a.k = "Variable" -> m \cup {<<IdOf(a), IdOf(b)>>}
                   [] a.k = "Binding" -> m \cup {<<<<"b", a.id>>, <<"b", b.id>>>>}
                   [] OTHER -> m
       IN  FKids(a, b, m1, 1)
FKids(a, b, m, i) == IF i > Len(a.c) THEN [d |-> "", m |-> m]
  ELSE LET r == FDiff(a.c[i], b.c[i], m) IN IF r.d # "" THEN [r EXCEPT !.d = a.k \o ": " \o @] ELSE FKids(a, b, r.m, i + 1)
OneToOne(m) == \A p \in m : \A q \in m : (p[1] = q[1]) <=> (p[2] = q[2])
FormulaDiff(a, b) ==
  LET r == FDiff(a, b, {}) IN IF r.d # "" THEN r.d ELSE IF ~OneToOne(r.m) THEN "a variable is bound elsewhere" ELSE ""
(* Origins. *)
RECURSIVE OrgDiff(_, _), OrgKids(_, _, _)
OrgDiff(a, b) == IF IsNil(a) THEN "" ELSE IF a.a # b.a THEN "origin of " \o a.k \o " should be " \o ToString(a.a) \o " is " \o ToString(b.a) ELSE OrgKids(a, b, 1)
OrgKids(a, b, i) == IF i > Len(a.c) THEN "" ELSE LET d == OrgDiff(a.c[i], b.c[i]) IN IF d = "" THEN OrgKids(a, b, i + 1) ELSE d

(* ----- What every formula satisfies ----- *)
RECURSIVE BoundOk(_, _)
BoundOk(x, bs) == CASE x.k = "Variable" -> x.def < 0 \/ x.def \in bs
                    [] x.k = "Binding" -> \A i \in 1..2 : BoundOk(x.c[i], bs \cup {x.id})
                    [] OTHER -> \A i \in 1..Len(x.c) : BoundOk(x.c[i], bs)
RECURSIVE FNodes(_)
FNodes(x) == IF IsNil(x) THEN <<>> ELSE <<x>> \o FlatMap(FNodes, x.c)
(* Numbers: one per binding and per free variable. *)
Numbers(ns) == {<<IF x.k = "Binding" THEN <<"b", x.id>> ELSE IdOf(x), x.n>> : x \in {ns[i] : i \in {j \in 1..Len(ns) : ns[j].k \in {"Binding", "Variable"}}}}
=============================================================================
