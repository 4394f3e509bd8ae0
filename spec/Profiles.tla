------------------------------ MODULE Profiles ------------------------------
(* The cases of each check: case number i under a seed, as a record.        *)
EXTENDS Scene, Chat, Directed

RAt(seed, i) == RSeed(seed, i)
R2(r) == RWarm(RNext(r))
Pick(s, r) == s[RVal(r, Len(s)) + 1]

(* ----- Random texts ----- *)
PPlain == [P0 EXCEPT !.sty = <<1>>, !.sp = FALSE, !.cap = 0]
PText  == [P0 EXCEPT !.bud = 8]
PSmall == [P0 EXCEPT !.bud = 3, !.fm = 20]
PValid == [PText EXCEPT !.mut = 0, !.fm = 60]
PFree  == [PText EXCEPT !.mut = 0, !.fm = 300, !.bud = 6]
PLong  == [PText EXCEPT !.mut = 10, !.bud = 30]
PBad   == [PText EXCEPT !.mut = 100, !.bud = 6]
PTight == [PText EXCEPT !.nosp = 700, !.mut = 15]
(* Rules whose alternatives are worth meeting often, in groups. *)
BoostGroups == << {"sentence", "sentence_1", "discourse"}, {"statement", "statement_1", "statement_2", "prenex"}, {"predicate_1", "predicate_2", "serial_predicate"},
   {"terms", "term", "termset"}, {"argument", "arg_1", "arg_2"}, {"arg_5", "arg_6"}, {"relative_clause", "relative_clause_1", "relative_clause_2", "arg_2"},
   {"relative_predicate", "relative_predicate_1", "relative_predicate_2"}, {"adverb", "adverb_1", "adverb_3", "term"},
   {"prepositional_phrase", "prepositional_phrase_1", "preposition", "preposition_1", "preposition_2", "preposition_3", "term"},
   {"content_clause", "content_clause_1", "content_predicate", "content_predicate_1", "content_predicate_2", "arg_6"}, {"MI_complement", "predicate_2"},
   {"linked_argument", "statement_3"}, {"sentence_2", "text"}, {"fragment", "discourse"}, {"freemod", "space_or_freemod"} >>
PBoost(r) == [PText EXCEPT !.mut = 8, !.boost = Pick(BoostGroups, r) \cup (IF RVal(RNext(r), 2) = 0 THEN {} ELSE Pick(BoostGroups, RNext(RNext(r)))), !.bud = 9]

(* ----- All short sequences of tokens, by number ----- *)
TonedFns == <<"LU", "MI", "PO", "MO">>
Token(n) == IF n <= 17 THEN N(NClasses[n]) ELSE IF n <= 23 THEN W(WordTones[n - 17])
            ELSE LET m == n - 24 IN F(TonedFns[(m \div 6) + 1], WordTones[(m % 6) + 1])
NTok == 47
Seq1 == NTok
Seq2 == NTok * NTok
Seq3 == NTok * NTok * NTok
(* Sequence number n (from 0): lengths 1, 2, 3. *)
TokSeq(n) == IF n < Seq1 THEN <<Token(n + 1)>>
             ELSE IF n < Seq1 + Seq2 THEN LET m == n - Seq1 IN <<Token((m \div NTok) + 1), Token((m % NTok) + 1)>>
             ELSE LET m == n - Seq1 - Seq2 IN <<Token((m \div Seq2) + 1), Token(((m \div NTok) % NTok) + 1), Token((m % NTok) + 1)>>
NSeqs == Seq1 + Seq2 + Seq3
RECURSIVE Spaced(_, _)
Spaced(ts, j) == IF j > Len(ts) THEN <<>> ELSE (IF j > 1 THEN <<SP, ts[j]>> ELSE <<ts[j]>>) \o Spaced(ts, j + 1)
(* A full walk through the sequences: consecutive i visit each exactly once. *)
SeqNo(seed, i) == ((i % NSeqs) * 4001 + (seed % 1000) * 7717) % NSeqs
SeqText(seed, i, r) == SpellToks(Spaced(TokSeq(SeqNo(seed, i)), 1), 1, PText, r, R2(r))
(* Four-token sequences with a complete frame: verb first. *)
SeqText4(r) == LET f(k) == IF k = 0 THEN W(THook) ELSE Token(RVal(RNext(r), 1) + 1) IN
   LET r1 == R2(r) r2 == R2(r1) r3 == R2(r2) r4 == R2(r3) IN
   SpellToks(Spaced(<<IF RVal(r, 2) = 0 THEN W(THook) ELSE Token(RVal(r, NTok) + 1), Token(RVal(r1, NTok) + 1), Token(RVal(r2, NTok) + 1), Token(RVal(r3, NTok) + 1)>>, 1), 1, PText, r4, R2(r4))

(* ----- All single syllables, by number ----- *)
SylList == << <<cA, 1>>, <<cA, 2>>, <<cA, 3>>, <<cA, 4>> >>
Rhymes == LET row(v) == [j \in 1..Len(Tails(v)) |-> <<v, Tails(v)[j]>>] IN row(cA) \o row(cU) \o row(cI) \o row(cO) \o row(cE)
NRhyme == 48
AllTones == <<NoTone>> \o Tones
(* Number n (from 0): rhyme, initial, tone, style. *)
NSyl == NRhyme * 17 * 8 * 8
SylNo(seed, i) == ((i % NSyl) * 4001 + (seed % 1000) * 7717) % NSyl
SylWord(n, caps, dotted) ==
  LET y == <<Initials[((n \div NRhyme) % 17) + 1], Rhymes[(n % NRhyme) + 1][1], Rhymes[(n % NRhyme) + 1][2]>>
      t == AllTones[((n \div (NRhyme * 17)) % 8) + 1]
      sty == (n \div (NRhyme * 17 * 8)) + 1
  IN  SpellSyl(y, t, sty, caps, TRUE, dotted)
(* As a text: alone, or where its tone makes it part of a statement. *)
Frame(t, w, k) ==
  LET hai == <<cM, cA, 7843 - 7843 + cI>>
      verb == <<cM, 7843, cI>>  arg == <<cJ, 237>>  sp == <<32>>
  IN CASE k = 0 -> w
       [] k = 1 -> verb \o sp \o w \o sp \o arg
       [] k = 2 -> w \o sp \o arg
       [] k = 3 -> verb \o sp \o arg \o sp \o w
       [] k = 4 -> verb \o sp \o <<cJ, 237>> \o sp \o w \o sp \o verb
       [] k = 5 -> w \o w
       [] k = 6 -> w \o <<45>> \o sp \o arg
       [] OTHER -> verb \o w
SylText(seed, i, r) == LET n == SylNo(seed, i) IN
   Frame(0, SylWord(n, (IF RVal(r, 5) = 0 THEN 1 ELSE IF RVal(r, 5) = 1 THEN 2 ELSE 0), RVal(RNext(r), 2) = 0), RVal(R2(r), 8))
(* Letters put together at random. *)
RECURSIVE RandChars(_, _)
RandChars(n, r) == IF n = 0 THEN <<>> ELSE <<OddChars[RVal(r, Len(OddChars)) + 1]>> \o RandChars(n - 1, R2(r))

(* A question: a statement, moq with or without question marks, what follows. *)
QuestionText(r) ==
  LET r2 == R2(r) r3 == R2(r2) r4 == R2(r3)
      st == DeriveCase([PSmall EXCEPT !.root = "statement"], r2)
      tl == CASE RVal(r, 6) = 0 -> <<QM>> [] RVal(r, 6) = 1 -> <<>> [] RVal(r, 6) \in {2, 3} -> <<QM, SP>> [] RVal(r, 6) = 4 -> <<QM, SP, N("BEI"), SP>>
              [] OTHER -> <<QM, SP>> \o DeriveCase([PSmall EXCEPT !.root = "sentence"], r4)
  IN  SpellToks(st \o <<SP, N("MOQ")>> \o tl, 1, PSmall, r3, r4)
(* A mixture for the checks about every text. *)
MixText(seed, i) ==
  LET r == RAt(seed, i) r2 == R2(r) m == i % 16 IN
  IF i % 96 = 31 THEN QuestionText(r) ELSE
  CASE m \in {0, 1, 2} -> TextCase(PText, r2)
    [] m = 3 -> TextCase(PSmall, r2)
    [] m \in {4, 5} -> TextCase(PBoost(r), r2)
    [] m = 6 -> TextCase(PFree, r2)
    [] m \in {7, 8} -> TextCase(PBad, r2)
    [] m = 9 -> TextCase(PTight, r2)
    [] m \in {10, 11} -> SeqText(seed, 2 * (i \div 16) + m - 10, r2)
    [] m = 12 -> SeqText4(r2)
    [] m \in {13, 14} -> SylText(seed, 2 * (i \div 16) + m - 13, r2)
    [] m = 15 -> IF (i \div 16) % 8 = 0 THEN TextCase(PLong, r2) ELSE IF (i \div 16) % 2 = 1 THEN RandChars(1 + RVal(r, 6), r2) ELSE DamageChars(TextCase(PSmall, r2), RNext(r2))
(* A mixture of mostly accepted texts. *)
ValidText(seed, i) ==
  LET r == RAt(seed, i) r2 == R2(r) m == i % 8 IN
  IF i % 48 = 7 THEN QuestionText(r) ELSE
  CASE m \in {0, 1, 2} -> TextCase(PValid, r2)
    [] m \in {3, 4} -> TextCase([PBoost(r) EXCEPT !.mut = 0], r2)
    [] m = 5 -> TextCase(PFree, r2)
    [] m = 6 -> TextCase([PTight EXCEPT !.mut = 0], r2)
    [] m = 7 -> IF (i \div 8) % 8 = 0 THEN TextCase([PLong EXCEPT !.mut = 0], r2) ELSE TextCase([PValid EXCEPT !.boost = {"sentence", "statement", "argument", "relative_clause"}, !.bud = 12], r2)
ShortValid(seed, i) ==
  LET r == RAt(seed, i) r2 == R2(r) m == i % 4 IN
  IF i % 40 = 7 THEN QuestionText(r) ELSE
  CASE m \in {0, 1} -> TextCase([PValid EXCEPT !.bud = 4], r2)
    [] m = 2 -> TextCase([PBoost(r) EXCEPT !.mut = 0, !.bud = 4], r2)
    [] m = 3 -> TextCase([PFree EXCEPT !.bud = 3], r2)

(* A text and a variation of it: another spelling of the same words, or one   *)
(* token or letter changed, or the same repeated.                             *)
PairCase(seed, i) ==
  LET r == RAt(seed, i) r2 == R2(r) r3 == R2(r2) r4 == R2(r3)
      pf == CASE i % 4 = 0 -> [PValid EXCEPT !.bud = 4] [] i % 4 = 1 -> [PBoost(r) EXCEPT !.mut = 0, !.bud = 4] [] i % 4 = 2 -> [PFree EXCEPT !.bud = 3] [] OTHER -> [PValid EXCEPT !.bud = 6]
      ts == DeriveCase(pf, r2)
      s == SpellToks(ts, 1, [pf EXCEPT !.sty = <<1>>, !.sp = FALSE, !.cap = 0], r3, r4)
      k == RVal(r, 8)
      ts2 == IF k <= 2 THEN DamageToks(ts, R2(r4)) ELSE ts
      s2 == IF k <= 2 THEN SpellToks(ts2, 1, [pf EXCEPT !.sty = <<1>>, !.sp = FALSE, !.cap = 0], r3, r4)
            ELSE IF k = 3 THEN SpellToks(ts, 1, pf, r3, R2(r4))
            ELSE IF k = 4 THEN SpellToks(ts, 1, [pf EXCEPT !.sty = <<1>>, !.sp = FALSE, !.cap = 0], R2(r3), r4)
            ELSE IF k = 5 THEN SpellToks(ts, 1, [pf EXCEPT !.sp = FALSE, !.cap = 0, !.sty = <<1,2,3,4,5,6>>], r3, r4)
            ELSE IF k = 6 THEN <<32>> \o s
            ELSE DamageChars(s, R2(r4))
  IN  [s |-> s, s2 |-> s2]

(* The same words in two spellings: styles, case, dots, spaces. *)
SpellPair(seed, i) ==
  LET r == RAt(seed, i) r2 == R2(r) r3 == R2(r2) r4 == R2(r3)
      pf == CASE i % 4 \in {0, 1} -> [PValid EXCEPT !.bud = 6, !.nosp = 0] [] i % 4 = 2 -> [PBoost(r) EXCEPT !.mut = 0, !.bud = 6, !.nosp = 0] [] OTHER -> [PFree EXCEPT !.bud = 5, !.nosp = 0]
      ts0 == DeriveCase(pf, r2)
      ts == IF i % 5 = 0 THEN DamageToks(ts0, R2(r4)) ELSE ts0
  IN  [s |-> SpellToks(ts, 1, [pf EXCEPT !.sty = <<1>>, !.cap = 0, !.sp = FALSE], r3, r4), s2 |-> SpellToks(ts, 1, [pf EXCEPT !.cap = 12], r3, R2(r4))]

(* Normalised words for the tone operations. *)
RECURSIVE ToneWords(_, _, _, _)
ToneWords(seed, i, k, n) ==
  IF k = n THEN <<>> ELSE
  LET j == i * n + k
      r == RAt(seed, j)
      no == SylNo(seed, j)
      y == <<Initials[((no \div NRhyme) % 17) + 1], Rhymes[(no % NRhyme) + 1][1], Rhymes[(no % NRhyme) + 1][2]>>
      t == AllTones[((no \div (NRhyme * 17)) % 8) + 1]
      more == IF RVal(r, 3) = 0 THEN <<RandSyl(R2(r))>> ELSE IF RVal(r, 6) = 1 THEN <<RandSyl(R2(r)), RandSyl(R2(R2(r)))>> ELSE <<>>
      caps == LET c == RVal(RNext(r), 6) IN IF c < 4 THEN 0 ELSE c - 3
      sty == IF RVal(R2(R2(r)), 8) = 0 THEN 7 ELSE 1
  IN  << SpellWord(<<y>> \o more, t, sty, caps, FALSE) >> \o ToneWords(seed, i, k + 1, n)

(* Requests on one parser. *)
RECURSIVE OpsOf(_, _, _)
OpsOf(n, len, r) == IF n = 0 THEN <<>> ELSE
  << (CASE RVal(r, 5) \in {0, 1} -> <<"text", 0>> [] RVal(r, 5) = 2 -> <<"tree", 0>> [] OTHER -> <<"word", IF RVal(RNext(r), 3) = 0 THEN 0 ELSE RVal(R2(r), len + 1)>>) >>
  \o OpsOf(n - 1, len, R2(R2(r)))
RECURSIVE ByteLen(_, _)
ByteLen(s, i) == IF i > Len(s) THEN 0 ELSE Width(s[i]) + ByteLen(s, i + 1)
(* Byte length of a text in which code points above Unicode stand for one bad byte. *)
BLen(s) == ByteLen(s, 1)

(* ----- Texts for the interpretation ----- *)
PLogic == [P0 EXCEPT !.bud = 9, !.fm = 8, !.nosp = 0, !.lex = 75, !.cmp = 5, !.ru = TRUE, !.sty = <<1>>, !.sp = FALSE, !.cap = 3, !.mut = 0, !.vars = 12]
ConnRules == {"sentence", "sentence_1", "statement_1", "statement_2", "predicate_1", "predicate_2", "termset", "argument", "arg_1", "arg_6",
              "relative_clause", "relative_clause_1", "relative_clause_2", "relative_predicate_1", "adverb", "adverb_1", "adverb_3",
              "prepositional_phrase", "prepositional_phrase_1", "preposition", "preposition_1", "preposition_3", "content_clause", "content_predicate_1"}
LogicGroups == [ g \in {"args", "conn", "quant", "vars", "terms", "plur", "adv", "any"} |->
  CASE g = "args" -> << {"linked_argument", "terms", "statement_3"}, {"prenex", "statement", "terms"}, {"linked_argument", "argument", "terms"},
                        {"statement", "prenex", "linked_argument", "terms", "statement_1"}, {"linked_argument", "terms", "predicate_1", "statement_3"}, {"terms", "term", "termset", "linked_argument"} >>
    [] g = "conn" -> << {"sentence", "sentence_1"}, {"statement_1", "statement_2", "statement"}, {"predicate_1", "predicate_2", "serial_predicate"}, {"term", "termset", "terms"},
                        {"argument", "arg_1", "terms"}, {"arg_6", "arg_5"}, {"relative_clause", "relative_clause_1", "relative_clause_2", "arg_2"}, {"relative_predicate_1", "relative_predicate", "arg_2"},
                        {"adverb", "adverb_1", "adverb_3", "term"}, {"prepositional_phrase", "prepositional_phrase_1", "term"}, {"preposition", "preposition_1", "preposition_2", "preposition_3", "term"},
                        {"content_clause", "content_predicate_1", "arg_6"}, {"linked_argument", "argument", "arg_1"} >>
    [] g = "quant" -> << {"arg_2", "terms", "statement"}, {"arg_2", "terms", "relative_clause"}, {"arg_2", "argument", "arg_1", "terms"}, {"arg_2", "statement_1", "terms"},
                         {"arg_2", "content_clause", "arg_6", "terms"}, {"arg_2", "relative_clause_3", "terms"} >>
    [] g = "vars" -> << {"arg_2", "terms"}, {"arg_2", "terms", "statement", "prenex"}, {"arg_2", "relative_clause", "relative_clause_3", "terms"}, {"arg_2", "statement_1", "argument", "terms"},
                        {"arg_2", "arg_6", "predicate_2", "terms"} >>
    [] g = "terms" -> << {"arg_6", "predicate_2"}, {"MI_complement", "predicate_2", "arg_6"}, {"serial_predicate", "arg_5", "predicate_2"}, {"content_clause", "content_clause_1", "arg_6"},
                         {"relative_predicate", "relative_predicate_2", "arg_2"}, {"adverb_3", "preposition_3", "term"}, {"content_predicate", "content_predicate_2", "arg_6"}, {"predicate_2", "terms", "linked_argument"} >>
    [] g = "plur" -> << {"argument", "arg_1", "terms"}, {"linked_argument", "argument", "arg_1"}, {"argument", "arg_1", "arg_2", "statement"}, {"prenex", "statement", "terms", "argument", "arg_1"} >>
    [] g = "adv" -> << {"term", "terms", "adverb"}, {"term", "terms", "prepositional_phrase"}, {"term", "terms", "arg_2", "statement"}, {"term", "terms", "adverb_1", "prepositional_phrase_1", "preposition"},
                       {"term", "terms", "argument", "arg_2"}, {"prenex", "statement", "term", "terms"} >>
    [] g = "any" -> BoostGroups ]
LogicText(g, seed, i) ==
  IF i % 2 = 0 THEN SceneText(g, R2(RAt(seed + 7, i))) ELSE
  LET r == RAt(seed + 3, i) r2 == R2(r) r3 == R2(r2)
      gs == LogicGroups[g]
      bo == gs[(i % Len(gs)) + 1] \cup (IF RVal(r, 3) = 0 THEN Pick(LogicGroups[Pick(<<"args", "conn", "quant", "vars", "terms", "adv">>, r2)], r3) ELSE {})
      pf == [PLogic EXCEPT !.boost = bo, !.bud = 5 + RVal(r2, 7), !.root = IF RVal(r3, 8) = 0 THEN "text" ELSE "sentence",
             !.mute = IF RVal(r3, 3) = 0 THEN {} ELSE ConnRules \ bo,
             !.vars = CASE g \in {"vars", "quant", "adv"} -> 40 [] OTHER -> 12, !.ru = (g # "any") \/ i % 3 # 0, !.fm = IF i % 9 = 0 THEN 60 ELSE 0]
  IN  IF i % 8 = 7 THEN TextCase([pf EXCEPT !.boost = {}, !.mute = {}], r3)
      ELSE IF i % 11 = 5 THEN TextCase([pf EXCEPT !.root = "sentence", !.bud = 4], r3) \o <<32, cD, cA, 32>> \o TextCase([pf EXCEPT !.bud = 5], R2(r3))
      ELSE TextCase(pf, r3)

(* ----- Formulas, put together at random ----- *)
FName == << <<cM,cA,cI>>, <<cM,cE,cQ>>, <<cP,cO,cQ>>, <<cJ,cI>>, <<cS,cH,cI>>, <<61>>, <<8826>>, <<cR,cA,cQ>>, <<61>>, <<cM,cU>>, <<cS,cH,cI>>, <<cS,cU,cQ>> >>
FNone == [k |-> "nil", c |-> <<>>]
FAgain == [k |-> "again", c |-> <<>>]            \* the part before it once more, the same node
FStep(st) == [st EXCEPT !.r = R2(@)]
FRes(st, t) == [s |-> st, t |-> t]
RECURSIVE FStmt(_, _), FPredn(_, _), FPred(_, _), FArg(_, _), FArgs(_, _, _, _)
FStmt(d, st0) ==
  LET st == FStep(st0) k == IF d = 0 THEN 9 ELSE RVal(st.r, 10) IN
  IF k < 4 THEN
    LET id == st.n
        q == <<"The", "Lambda", "Each", "All", "Some", "None", "Hi">>[RVal(RNext(st.r), 7) + 1]
        s1 == [FStep(st) EXCEPT !.n = @ + 1, !.b = Append(@, id)]
        re == IF RVal(s1.r, 4) = 0 THEN FRes(s1, FNone) ELSE FStmt(d - 1, s1)
        sc == FStmt(d - 1, re.s)
    IN  FRes([sc.s EXCEPT !.b = st.b], [k |-> "Binding", q |-> q, id |-> id, n |-> id, c |-> <<re.t, sc.t>>])
  ELSE IF k < 7 THEN
    LET l == FStmt(d - 1, st) r == IF RVal(R2(l.s.r), 12) = 0 THEN FRes(l.s, FAgain) ELSE FStmt(d - 1, l.s) IN
    FRes(r.s, [k |-> "Connection", con |-> <<"And", "Or", "Ri", "And">>[RVal(RNext(st.r), 4) + 1], c |-> <<l.t, r.t>>])
  ELSE FPredn(d, st)
FPredn(d, st) == LET p == FPred(d, st) as == FArgs(d, RVal(RNext(p.s.r), 4), p.s, <<>>) IN FRes(as.s, [k |-> "Predication", c |-> <<p.t>> \o as.c])
FArgs(d, n, st, acc) == IF n = 0 THEN [s |-> st, c |-> acc]
  ELSE IF acc # <<>> /\ RVal(R2(st.r), 8) = 0 THEN FArgs(d, n - 1, FStep(st), Append(acc, FAgain))
  ELSE LET a == FArg(d, st) IN FArgs(d, n - 1, a.s, Append(acc, a.t))
FVar(st) == IF st.b = <<>> \/ RVal(RNext(st.r), 5) = 0 THEN FRes([st EXCEPT !.n = @ + 1], [k |-> "Variable", def |-> -1, n |-> st.n, c |-> <<>>])
            ELSE LET id == st.b[RVal(R2(st.r), Len(st.b)) + 1] IN FRes(st, [k |-> "Variable", def |-> id, n |-> id, c |-> <<>>])
FPred(d, st0) ==
  LET st == FStep(st0) k == RVal(st.r, 16) IN
  IF k < 2 THEN FVar(st)
  ELSE IF k < 4 /\ d > 0 THEN LET l == FPred(d - 1, st) r == IF RVal(R2(l.s.r), 8) = 0 THEN FRes(l.s, FAgain) ELSE FPred(d - 1, l.s) IN FRes(r.s, [k |-> "Serial", c |-> <<l.t, r.t>>])
  ELSE IF k = 4 /\ d > 0 THEN LET x == FStmt(d - 1, st) IN FRes(x.s, [k |-> "Abstraction", c |-> <<x.t>>])
  ELSE IF k = 5 THEN LET x == FPred(IF d > 0 THEN d - 1 ELSE 0, st) IN FRes(x.s, [k |-> "Swap", pos |-> 1, c |-> <<x.t>>])
  ELSE FRes(st, [k |-> "Pred", name |-> Pick(FName, RNext(st.r)), c |-> <<>>])
FArg(d, st0) ==
  LET st == FStep(st0) k == RVal(st.r, 12) IN
  IF k = 0 THEN FRes(st, FNone)
  ELSE IF k = 1 THEN FRes(st, [k |-> "Quote", text |-> Pick(<< <<cJ, 237>>, <<>>, <<cM, 7843, 305, 32, 171, 187>>, <<953, 65, 66>> >>, RNext(st.r)), full |-> RVal(R2(st.r), 2) = 0, c |-> <<>>])
  ELSE IF k = 2 /\ d > 0 THEN LET x == FStmt(d - 1, st) IN FRes(x.s, [k |-> "Abstraction", c |-> <<x.t>>])
  ELSE IF k = 3 /\ d > 0 THEN LET x == FArgs(d - 1, 2 + RVal(RNext(st.r), 2), st, <<>>) IN FRes(x.s, [k |-> "Plurality", c |-> x.c])
  ELSE FVar(st)
(* Numbers in another order. *)
RECURSIVE Renum(_, _)
Renum(x, tot) == LET y == [x EXCEPT !.c = [j \in 1..Len(x.c) |-> Renum(x.c[j], tot)]] IN IF x.k \in {"Binding", "Variable"} THEN [y EXCEPT !.n = tot - 1 - @] ELSE y
FormulaCase(seed, i) == LET r == RAt(seed + 5, i) f == FStmt(1 + RVal(r, 4), [r |-> R2(r), n |-> 0, b |-> <<>>]) IN IF i % 2 = 0 THEN f.t ELSE Renum(f.t, f.s.n)

(* ----- Requests to the programs ----- *)
(* A text longer than a buffer is likely to be. *)
(* One text in forty is long: the driver puts a run of pad commas where it has one. *)
PadOf(seed, i) == LET r == RAt(seed + 59, i) IN IF RVal(r, 40) # 0 THEN 0 ELSE Pick(<<600, 1100, 4200, 4200, 8300, 8300, 8300, 66000>>, R2(r))
AnyText(seed, i) ==
  LET r == RAt(seed + 41, i) r2 == R2(r) m == RVal(r, 10) IN
  IF PadOf(seed, i) # 0 THEN LogicText("any", seed, i) \o <<32, cD, cA, 44>> \o LogicText("any", seed, i + 7) ELSE
  CASE m \in {0, 1, 2} -> LogicText("any", seed, i)
    [] m = 3 -> LogicText(Pick(<<"conn", "quant", "vars", "terms", "adv">>, r2), seed, i)
    [] m = 4 -> TextCase([PFree EXCEPT !.bud = 4], r2)
    [] m = 5 -> TextCase([PBad EXCEPT !.bud = 4], r2)
    [] m = 6 -> DamageChars(TextCase(PSmall, r2), RNext(r2))
    [] m = 7 -> TextCase(PSmall, r2)
    [] m = 8 -> MixText(seed, i)
    [] OTHER -> Pick(<< <<>>, <<32>>, <<10>>, RandChars(3, r2), QuestionText(r2), <<46>> >>, RNext(r2))
RECURSIVE ReqsOf(_, _, _, _, _)
ReqsOf(n, g, seed, i, r) == IF n = 0 THEN <<>> ELSE
  LET k == RVal(r, 24)  r2 == R2(r)
      m == CASE k = 0 -> "GET" [] k = 1 -> Pick(<<"PUT", "DELETE", "PATCH", "OPTIONS", "HEAD">>, r2) [] OTHER -> "POST"
      how == CASE k = 2 -> "abort" [] k \in {3, 4, 5} -> "slow" [] OTHER -> "fine"
      path == IF m = "GET" /\ RVal(r2, 3) = 0 THEN "/font/GUST-FONT-LICENSE.txt" ELSE IF RVal(r2, 7) = 0 THEN "/some/where" ELSE "/"
      same == RVal(RNext(r2), 6) = 0                     \* the same text as another request
      j == IF same THEN i * 16 ELSE i * 16 + n
  IN  << [m |-> m, how |-> how, p |-> path, g |-> g, s |-> IF m = "POST" THEN AnyText(seed, j) ELSE <<>>, pad |-> PadOf(seed, j)] >>
      \o ReqsOf(n - 1, IF RVal(RNext(r), 3) = 0 THEN g + 1 ELSE g, seed, i, R2(r2))
ServeCase(seed, i) == LET r == RAt(seed + 43, i) IN [i |-> i, reqs |-> ReqsOf(2 + RVal(r, 6), 1, seed, i, R2(r))]

BotText(seed, i, r) ==
  LET k == RVal(r, 20) t == AnyText(seed, i) r2 == R2(r)
      sp == Pick(<< <<32>>, <<32>>, <<32, 32>>, <<>>, <<10>>, <<9, 160>> >>, r2) IN
  CASE k < 11 -> Prefix \o sp \o t \o (IF RVal(r2, 4) = 0 THEN <<32, 10>> ELSE <<>>)
    [] k = 11 -> Prefix
    [] k = 12 -> t
    [] k = 13 -> <<32>> \o Prefix \o sp \o t
    [] k = 14 -> <<46, 77, 73, 85, 32>> \o t                       \* .MIU
    [] k = 15 -> <<cM, cI, cU, 32>> \o t
    [] k = 16 -> Prefix \o Prefix \o sp \o t
    [] k = 17 -> Prefix \o <<58, 32>> \o t
    [] k = 18 -> <<>>
    [] OTHER -> <<46, cM, cI>>
BotEvent(seed, i, r) ==
  LET r2 == R2(r) r3 == R2(r2)
      t == IF RVal(r, 6) = 0 THEN Pick(<<"edit", "delete", "join", "leave", "rename", "edit">>, r2) ELSE "msg"
      from == RVal(r2, 10) # 0
      nick == CASE RVal(RNext(r2), 3) = 0 -> BridgeNick [] RVal(RNext(r2), 9) = 1 -> "Toaq Telegram Bridge" [] RVal(RNext(r2), 9) = 2 -> "toaqbridgebot" [] OTHER -> "someone"
      s0 == BotText(seed, i, r3)
      who == Pick(<< <<cA, cN, cA>>, <<42, 42, cA, 42, 42>>, <<>>, <<cA, 58, cB>>, <<cA, 58, 32, cB>> >>, RNext(r3))
      s == IF RVal(R2(r3), 5) < (IF nick = BridgeNick THEN 4 ELSE 1) THEN who \o <<58, 32>> \o s0 ELSE s0
      e == [t |-> t, from |-> from, nick |-> nick, s |-> s, reply |-> RVal(R2(r3), 7) = 0]
  IN  e @@ [c |-> 1 + RVal(R2(R2(r3)), 3), ask |-> Asks(e), in |-> InputOf(e)]
BotCase(seed, i) == LET r == RAt(seed + 47, i) n == 2 + RVal(r, 7) ps == {PadOf(seed, i * 8 + k) : k \in 1..n} IN
  [i |-> i, nch |-> 1 + RVal(R2(r), 3), seq |-> i % 2 = 0, pad |-> CHOOSE p \in ps : \A q \in ps : q <= p, evs |-> [k \in 1..n |-> BotEvent(seed, i * 8 + k, RAt(seed + 53, i * 8 + k))]]

(* Replies of a dictionary service. *)
Letters(r, n) == [k \in 1..n |-> Pick(<<97, 98, 65, 32, 34, 92, 60, 9647, 241, 8230, 10, 100, 101, 46, 44, 55357 - 55357 + 128512>>, RSeed(RVal(r, 9973) + k, k))]
DictHead(r) ==
  LET w(q) == SpellWord(IF RVal(q, 3) = 0 THEN <<RandSyl(q), RandSyl(R2(q))>> ELSE <<RandSyl(q)>>, AllTones[RVal(RNext(q), 8) + 1], 1, IF RVal(q, 5) = 0 THEN 1 ELSE IF RVal(q, 11) = 1 THEN 2 ELSE 0, FALSE)
  IN  CASE RVal(r, 8) = 0 -> w(R2(r)) \o <<32>> \o w(R2(R2(r))) [] RVal(r, 8) = 1 -> <<cM, IF RVal(r, 3) = 0 THEN 7842 ELSE 7843, cI>> [] RVal(r, 8) = 2 -> <<cM, cA, cI>>
         [] RVal(r, 8) = 3 -> <<IF RVal(r, 3) = 0 THEN 77 ELSE cM, 225, cI>> [] OTHER -> w(R2(r))
DictCase(seed, i) ==
  LET r == RAt(seed + 59, i) r2 == R2(r) r3 == R2(r2)
      k == RVal(r, 16)
      n == RVal(r2, 7)
  IN [i |-> i,
      how |-> CASE k = 0 -> "cut" [] k = 1 -> "junk" [] k = 2 -> "array" [] k = 3 -> "empty" [] k = 4 -> "drop" [] k = 5 -> "down" [] k = 6 -> "short" [] OTHER -> "fine",
      cut |-> RVal(r3, 100),
      success |-> IF k = 7 THEN "no" ELSE IF k = 8 /\ RVal(r3, 2) = 0 THEN "missing" ELSE "yes",
      data |-> IF k = 9 THEN Pick(<<"null", "missing", "string">>, r3) ELSE IF k \in {7, 8} THEN Pick(<<"null", "list", "missing">>, r3) ELSE "list",
      haserr |-> IF k \in {7, 8} THEN RVal(r3, 3) # 0 ELSE IF k = 10 THEN TRUE ELSE FALSE, error |-> Letters(r3, RVal(r2, 9)),
      times |-> IF i % 48 = 5 THEN 20000 ELSE IF i % 16 = 3 THEN Pick(<<2, 90, 700, 1500>>, r3) ELSE 1,
      extra |-> RVal(r3, 2) = 0, query |-> Letters(r2, RVal(r3, 12)),
      ents |-> [j \in 1..n |-> LET q == RSeed(seed + j, i * 9 + j) IN [head |-> DictHead(q), body |-> Letters(q, RVal(q, 8)), by |-> Letters(R2(q), RVal(q, 4)), score |-> RVal(R2(q), 9) - 4]]]
(* Runs of the program that writes the word list. *)
Snips == << <<100, 105, 99, 116, 46>>, <<100, 105, 99, 116, 46, 87, 111, 114, 100>>, <<37, 100, 37>>, <<37, 118, 37, 33>>, <<96>>, <<92, 110>>, <<34, 44, 10>>, <<42, 47>>, <<9>>, <<0>>, <<65279>>, <<8232>>, <<65533>> >>
HeadSnips == <<Snips[1], Snips[2], Snips[3], Snips[5], Snips[9], Snips[10], Snips[11]>>
Snip(T, S, q) == IF RVal(q, 3) # 0 THEN T ELSE LET n == RVal(R2(q), Len(T) + 1) IN SubSeq(T, 1, n) \o Pick(S, RNext(q)) \o SubSeq(T, n + 1, Len(T))
GenWordsCase(seed, i) ==
  LET c == DictCase(seed + 7, i) r == RAt(seed + 61, i) IN
  [c EXCEPT !.ents = [j \in 1..Len(c.ents) |-> LET e == c.ents[j] q == RSeed(seed + j, i * 11 + j) IN [head |-> Snip(e.head, HeadSnips, R2(R2(q))), body |-> Snip(e.body, Snips, q), by |-> Snip(e.by, Snips, R2(q)), score |-> e.score]],
            !.error = Snip(c.error, Snips, r)]
  @@ [file |-> Pick(<<"new", "new", "old", "old", "old", "nodir", "dir">>, R2(r))]
CliCase(seed, i) == [i |-> i, s |-> AnyText(seed, i), pad |-> PadOf(seed, i), how |-> CASE i % 16 = 15 -> "missing" [] i % 32 = 14 -> "dir" [] i % 4 = 1 -> "file" [] i % 4 = 2 -> "relative" [] OTHER -> "stdin"]

(* Prefixes put in by hand, in one case of eight. *)
MuOf(q) == IF RVal(q, 8) = 0 THEN 1 + RVal(R2(q), 5) ELSE 0
CaseOf(kind, seed, i) ==
  LET r == RAt(seed + 17, i) r2 == R2(r) r3 == R2(r2) IN
  CASE kind = "reach" -> [i |-> i, s |-> ReachText(PPlain, i + seed * 7, r2), mu |-> 0, at |-> 0, p |-> 0, q |-> 0]
    [] kind = "stray" -> LET s == StrayText(PPlain, i + seed * 7, r2) IN [i |-> i, s |-> s, offs |-> [k \in 1..3 |-> RVal(RSeed(seed + k, i), BLen(s) + 1)]]
    [] kind = "mix" -> [i |-> i, s |-> MixText(seed, i)]
    [] kind = "l_reach" -> [i |-> i, s |-> ReachText(PLogic, i + seed * 7, r2)]
    [] kind \in {"l_args", "l_conn", "l_quant", "l_vars", "l_terms", "l_plur", "l_adv", "l_any"} ->
         [i |-> i, s |-> LogicText(CASE kind = "l_args" -> "args" [] kind = "l_conn" -> "conn" [] kind = "l_quant" -> "quant" [] kind = "l_vars" -> "vars"
                                     [] kind = "l_terms" -> "terms" [] kind = "l_plur" -> "plur" [] kind = "l_adv" -> "adv" [] OTHER -> "any", seed, i)]
    [] kind = "serve" -> ServeCase(seed, i)
    [] kind = "bot" -> BotCase(seed, i)
    [] kind = "dict" -> DictCase(seed, i)
    [] kind = "gen" -> GenWordsCase(seed, i)
    [] kind = "words" -> [i |-> i, part |-> i - 1, parts |-> 32]
    [] kind = "cli" -> CliCase(seed, i)
    [] kind = "form" -> [i |-> i, g |-> FormulaCase(seed, i)]
    [] kind = "valid" -> [i |-> i, s |-> ValidText(seed, i)]
    [] kind = "short" -> [i |-> i, s |-> ShortValid(seed, i)]
    [] kind = "long" ->
         LET u == (IF i % 4 = 3 THEN TextCase([PText EXCEPT !.bud = 1 + RVal(r, 3), !.mut = 0], r2) ELSE SceneText("any", r2)) \o (IF i % 5 = 0 THEN <<32>> ELSE <<32, cD, cA, 32>>)
             t == IF i % 4 = 1 THEN TextCase([PText EXCEPT !.bud = 2], r3) ELSE IF i % 4 = 2 THEN RandChars(1 + RVal(r, 3), r3) ELSE <<>>
             size == IF i % 8 \in {0, 5} THEN 33000 + RVal(r3, 900) ELSE 2 + RVal(r3, 900)
         IN [i |-> i, s |-> u, s2 |-> t, n |-> 2 + (size \div BLen(u))]
    [] kind = "tree" -> [i |-> i, s |-> ShortValid(seed, i), mu |-> MuOf(r)]
    [] kind = "visit" -> [i |-> i, s |-> ShortValid(seed, i), mu |-> MuOf(r3), at |-> IF i % 3 = 0 THEN RVal(r, 1000) ELSE 0,
                          p |-> IF i % 2 = 0 THEN 0 ELSE 2 + RVal(r2, 12), q |-> IF RVal(r3, 3) = 0 THEN 0 ELSE 1 + RVal(r3, 5)]
    [] kind = "pair" -> LET c == PairCase(seed, i) IN [i |-> i, s |-> c.s, s2 |-> c.s2, mu |-> MuOf(r)]
    [] kind = "spell" -> LET c == SpellPair(seed, i) IN [i |-> i, s |-> c.s, s2 |-> c.s2]
    [] kind = "tone" -> [i |-> i, ws |-> ToneWords(seed, i, 0, 16)]
    [] kind = "word" -> [i |-> i, s |-> CASE i % 6 \in {0, 1} -> TextCase([PText EXCEPT !.bud = 2, !.mut = 30], r2)
                                         [] i % 6 = 2 -> RandChars(1 + RVal(r, 8), r2)
                                         [] i % 6 = 3 -> SylText(seed, i \div 6, r2) \o <<32>> \o SylText(seed, NSyl - (i \div 6), r3)
                                         [] i % 6 = 4 -> SylText(seed, (NSyl \div 2) + (i \div 6), r2)
                                         [] OTHER -> DamageChars(SpellToks(<<Token(RVal(r, NTok) + 1), SP, Token(RVal(r2, NTok) + 1)>>, 1, PText, r3, R2(r3)), R2(R2(r3)))]
    [] kind = "hist" -> LET s == IF i % 3 = 0 THEN TextCase([PBad EXCEPT !.bud = 4], r2) ELSE TextCase([PText EXCEPT !.bud = 3, !.mut = 10], r2)
                        IN [i |-> i, s |-> s, ops |-> OpsOf(2 + RVal(r, 7), BLen(s), r3)]
    [] kind = "err" -> LET s == IF i % 4 = 0 THEN TextCase([PBad EXCEPT !.bud = 8], r2) ELSE IF i % 4 = 1 THEN DamageChars(TextCase(PSmall, r2), r3) ELSE IF i % 4 = 2 THEN MixText(seed, i) ELSE TextCase([PBad EXCEPT !.bud = 3], r2)
                       IN [i |-> i, s |-> s, offs |-> [k \in 1..3 |-> RVal(RSeed(seed + k, i), BLen(s) + 1)]]
=============================================================================
