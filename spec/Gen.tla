-------------------------------- MODULE Gen --------------------------------
(* Texts drawn from the grammar.  A case is identified by a seed and a       *)
(* number; everything about it is a function of those (the random source is  *)
(* part of the derivation state), so every case can be regenerated.          *)
EXTENDS Grammar

(* Random source: three small linear congruential generators. *)
RNext(r) == <<(171 * r[1]) % 30269, (172 * r[2]) % 30307, (170 * r[3]) % 30323>>
RVal(r, n) == (r[1] + 5 * r[2] + 11 * r[3]) % n                       \* 0 .. n-1
RWarm(r) == RNext(RNext(RNext(RNext(r))))
RSeed(seed, i) == RWarm(<<((seed * 7919 + i * 104) % 30268) + 1, ((seed * 31 + i) % 30306) + 1, ((seed * 1009 + (i \div 30306) * 77 + i * 3) % 30322) + 1>>)

(* Least number of words each expression derives. *)
RECURSIVE MinOf(_, _), MinSeq(_, _, _)
Big == 1000
MinIn(ns) == LET S == {ns[j] : j \in 1..Len(ns)} IN CHOOSE n \in S : \A k \in S : n <= k
MinSeq(ms, es, j) == IF j > Len(es) THEN 0 ELSE MinOf(ms, es[j]) + MinSeq(ms, es, j + 1)
MinOf(ms, e) == CASE e.o = "opt" -> 0
                  [] e.o \in {"SP", "Q"} -> 0
                  [] e.o \in {"N", "W", "F"} -> 1
                  [] e.o = "R" -> ms[RuleIx[e.n]]
                  [] e.o = "plus" -> MinOf(ms, e.e)
                  [] e.o = "seq" -> LET n == MinSeq(ms, e.es, 1) IN IF n > Big THEN Big ELSE n
                  [] e.o = "alt" -> MinIn([j \in 1..Len(e.es) |-> MinOf(ms, e.es[j])])
RECURSIVE MinFix(_)
MinFix(ms) == LET ns == [j \in 1..Len(RuleNames) |-> MinOf(ms, G[RuleNames[j]])] IN IF ns = ms THEN ms ELSE MinFix(ns)
MinRule == MinFix([j \in 1..Len(RuleNames) |-> Big])

(* The grammar with each choice annotated by the least sizes of its branches. *)
RECURSIVE Ann(_)
Ann(e) == CASE e.o \in {"opt", "plus"} -> [e EXCEPT !.e = Ann(@)]
            [] e.o = "seq" -> [e EXCEPT !.es = [j \in 1..Len(e.es) |-> Ann(e.es[j])]]
            [] e.o = "alt" -> LET ms == [j \in 1..Len(e.es) |-> MinOf(MinRule, e.es[j])] IN
                              [o |-> "alt", es |-> [j \in 1..Len(e.es) |-> Ann(e.es[j])], ms |-> ms, least |-> MinIn(ms)]
            [] OTHER -> e
GA == [j \in 1..Len(RuleNames) |-> Ann(G[RuleNames[j]])]

(* A profile: bud, largest budget of words; fm, free modifiers per mille;     *)
(* nosp, missing spaces per mille; boost, rules whose rarer branches are      *)
(* taken more often; mute, rules kept to their simplest branches.             *)
Mult == <<0, 1, 1, 1, 4, 8>>
OptP == <<0, 250, 250, 400, 700, 300>>
Hsh(st, ri, n, j) == 1 + ((((st.sw + ri * 61 + n * 17) % 997) * 31 + (st.sw % 89) * 7 + j * 409 + ri * ri) % 6)
AltWeight(st, e, j) ==
  LET m == e.ms[j]
      least == e.least
      base == IF m = least THEN 6 ELSE 2
      rn == RuleNames[st.ri]
      mult == IF rn \in st.pf.boost THEN (IF m > least THEN 8 ELSE 2) ELSE IF rn \in st.pf.mute THEN (IF m > least THEN 0 ELSE 1) ELSE Mult[Hsh(st, st.ri, Len(e.es), j)]
  IN  IF m >= Big THEN 0 ELSE IF st.bud <= 0 THEN (IF m = least THEN 1 ELSE 0) ELSE base * mult
RECURSIVE SumW(_, _), PickW(_, _, _)
SumW(ws, j) == IF j > Len(ws) THEN 0 ELSE ws[j] + SumW(ws, j + 1)
PickW(ws, j, k) == IF k < ws[j] THEN j ELSE PickW(ws, j + 1, k - ws[j])
ChooseAlt(st, e) ==
  LET ws0 == TLCEval([j \in 1..Len(e.es) |-> AltWeight(st, e, j)])
      ws == TLCEval(IF SumW(ws0, 1) = 0 THEN [j \in 1..Len(e.es) |-> IF e.ms[j] >= Big THEN 0 ELSE 1] ELSE ws0)
  IN  PickW(ws, 1, RVal(st.r, SumW(ws, 1)))

Step(st) == [st EXCEPT !.r = RNext(@)]
RECURSIVE Dv(_, _), DvSeq(_, _, _), DvPlus(_, _, _)
Dv(e, st0) ==
  LET st == Step(st0) IN
  CASE e.o = "R" -> IF e.n = "sp"
        THEN LET k == RVal(st.r, 1000) IN
             IF k < st.pf.fm /\ st.bud > 0 THEN Dv(R("space_or_freemod"), [st EXCEPT !.bud = @ - 1])
             ELSE IF k < st.pf.fm + st.pf.nosp THEN st ELSE [st EXCEPT !.out = Append(@, SP)]
        ELSE Dv(GA[RuleIx[e.n]], [st EXCEPT !.ri = RuleIx[e.n]])
    [] e.o = "seq" -> DvSeq(e.es, 1, st)
    [] e.o = "alt" -> Dv(e.es[ChooseAlt(st, e)], st)
    [] e.o = "opt" ->
        LET rn == RuleNames[st.ri]
            p == IF rn \in st.pf.boost THEN 550 ELSE IF rn \in st.pf.mute THEN 30
                 ELSE IF rn = "text" THEN (IF e.e.n = "discourse" THEN 1000 ELSE 150)
                 ELSE IF rn = "statement_3" /\ e.e.o = "R" THEN 800
                 ELSE OptP[Hsh(st, st.ri, 3, 5)]
        IN IF RVal(st.r, 1000) < p /\ (st.bud > 0 \/ rn = "text") THEN Dv(e.e, st) ELSE st
    [] e.o = "plus" -> DvPlus(e.e, (IF RVal(st.r, 4) = 0 THEN 2 ELSE 1), st)
    [] OTHER -> [st EXCEPT !.out = Append(@, e), !.bud = IF e.o \in {"SP", "Q"} THEN @ ELSE @ - 1]
DvSeq(es, j, st) == IF j > Len(es) THEN st ELSE DvSeq(es, j + 1, LET ri == st.ri IN [Dv(es[j], st) EXCEPT !.ri = ri])
DvPlus(e, n, st) == IF n = 0 THEN st ELSE DvPlus(e, n - 1, LET ri == st.ri IN [Dv(e, st) EXCEPT !.ri = ri])

(* ----- Spelling ----- *)
FnWords == [ c \in {"BI","DA","GA","GO","BEI","HU","JU","KU","KI","KIO","KEO","NA","RA","TU","TO","TEO","MOQ","LU","MI","PO","MO"} |->
  CASE c = "BI" -> << <<cB,cI>>, <<cP,cA>> >>
    [] c = "DA" -> << <<cD,cA>>, <<cK,cA>>, <<cS,cO>>, <<cB,cA>> >>
    [] c = "GA" -> << <<cG,cA>> >>
    [] c = "GO" -> << <<cG,cO>>, <<cF,cI>>, <<cC,cU>>, <<cT,cA>> >>
    [] c = "BEI" -> << <<cB,cE,cI>> >>
    [] c = "HU" -> << <<cH,cU>> >>
    [] c = "JU" -> << <<cJ,cU>> >>
    [] c = "KU" -> << <<cK,cU>> >>
    [] c = "KI" -> << <<cK,cI>> >>
    [] c = "KIO" -> << <<cK,cI,cO>> >>
    [] c = "KEO" -> << <<cK,cE,cO>>, <<cJ,cE>> >>
    [] c = "NA" -> << <<cN,cA>> >>
    [] c = "RA" -> << <<cR,cA>>, <<cR,cU>>, <<cR,cI>>, <<cR,cO,cI>>, <<cR,cU>>, <<cR,cA>>, <<cR,cO>>, <<cR,cE>> >>
    [] c = "TU" -> << <<cK,cE>>, <<cT,cU>>, <<cS,cI,cA>>, <<cS,cA>>, <<cH,cI>>, <<cJ,cA>> >>
    [] c = "TO" -> << <<cT,cO>> >>
    [] c = "TEO" -> << <<cT,cE,cO>> >>
    [] c = "MOQ" -> << <<cM,cO,cQ>> >>
    [] c = "LU" -> << <<cL,cU>>, <<cL,cI>>, <<cL,cO>>, <<cM,cA>>, <<cT,cI,cO>> >>
    [] c = "MI" -> << <<cM,cI>>, <<cS,cH,cU>> >>
    [] c = "PO" -> << <<cP,cO>>, <<cJ,cE,cI>> >>
    [] c = "MO" -> << <<cM,cO>> >> ]
Initials == << <<cB>>,<<cC>>,<<cD>>,<<cF>>,<<cG>>,<<cH>>,<<cJ>>,<<cK>>,<<cL>>,<<cM>>,<<cN>>,<<cP>>,<<cR>>,<<cS>>,<<cT>>,<<cC,cH>>,<<cS,cH>> >>
(* A word is a sequence of plain syllables <<initial, vowel, tail>>. *)
SylOf(ls) == LET i == IF ls[2] \in VowelSet THEN 1 ELSE 2 IN <<SubSeq(ls, 1, i), ls[i+1], SubSeq(ls, i + 2, Len(ls))>>
RandSyl(r) == LET r2 == RNext(r) r3 == RNext(r2) v == Vowels[RVal(r2, 5) + 1] IN
              <<Initials[RVal(r, 17) + 1], v, Tails(v)[RVal(r3, Len(Tails(v))) + 1]>>
LettersOf(y) == y[1] \o <<y[2]>> \o y[3]

(* Spelling styles of a tone: 1 precomposed, 2 combining mark, 3 ASCII mark   *)
(* after the vowel, 4 digit after the vowel, 5 ASCII mark at the end of the   *)
(* syllable, 6 digit at the end, 7 precomposed breve, 8 combining breve.      *)
UpCh(c, up) == IF up /\ c \in 97..122 THEN c - 32 ELSE c
LetterAs(c, up, dotted) == IF c = cI /\ ~up /\ ~dotted THEN Dotless ELSE UpCh(c, up)
CombOf(t) == CHOOSE c \in Combiners[t] : c # 774
SpellSyl(y, t, sty, caps, first, dotted) ==
  LET n1 == Len(y[1])
      up(i) == caps = 2 \/ (caps = 1 /\ first /\ i = 1)
      ini == [i \in 1..n1 |-> UpCh(y[1][i], up(i))]
      upv == up(n1 + 1)
      tail == [i \in 1..Len(y[3]) |-> LetterAs(y[3][i], up(n1 + 1 + i), dotted)]
      v == LetterAs(y[2], upv, dotted)
      s2 == IF t # TCaron /\ sty \in {7, 8} THEN sty - 6 ELSE sty
  IN IF t = NoTone THEN ini \o <<v>> \o tail
     ELSE CASE s2 = 1 -> ini \o <<Toned(t, y[2], upv)>> \o tail
            [] s2 = 2 -> ini \o <<v, CombOf(t)>> \o tail
            [] s2 = 3 -> ini \o <<v, t>> \o tail
            [] s2 = 4 -> ini \o <<v, ToneDigit[t]>> \o tail
            [] s2 = 5 -> ini \o <<v>> \o tail \o <<t>>
            [] s2 = 6 -> ini \o <<v>> \o tail \o <<ToneDigit[t]>>
            [] s2 = 7 -> ini \o <<Breve[VIdx(y[2])][IF upv THEN 3 ELSE 2]>> \o tail
            [] s2 = 8 -> ini \o <<v, 774>> \o tail
RECURSIVE SpellRest(_, _, _, _, _)
SpellRest(ys, j, sty, caps, dotted) == IF j > Len(ys) THEN <<>>
   ELSE SpellSyl(ys[j], TMacron, sty, caps, FALSE, dotted) \o SpellRest(ys, j + 1, sty, caps, dotted)
SpellWord(ys, t, sty, caps, dotted) == SpellSyl(ys[1], t, sty, caps, TRUE, dotted) \o SpellRest(ys, 2, sty, caps, dotted)

Spaces == << <<32>>, <<32>>, <<32>>, <<32>>, <<32,32>>, <<44,32>>, <<46>>, <<10>>, <<9>>, <<58>>, <<33>>, <<8212>>, <<171>>, <<12289,32>>, <<39>>, <<13,10>>, <<59,95>>, <<40,41>>, <<34>>, <<8230,10,32>> >>

(* Words of content used by the profiles, as letter sequences. *)
Lexicon == << <<cM,cA,cI>>, <<cJ,cI>>, <<cS,cU,cQ>>, <<cP,cO,cQ>>, <<cH,cO,cA,cQ>>, <<cN,cI>>, <<cD,cE>>, <<cG,cI>>, <<cR,cU,cQ>>, <<cK,cA,cQ>>,
              <<cH,cO,cA>>, <<cD,cO>>, <<cD,cO,cA>>, <<cM,cE,cA>>, <<cS,cH,cI>>, <<cB,cU>>, <<cL,cE>>, <<cF,cA>>, <<cT,cO,cQ>>, <<cC,cH,cO>>,
              <<cH,cO,cA>>, <<cD,cO>>, <<cD,cO>>, <<cJ,cA,cI>> >>
Compounds == << << <<cD,cO>>, <<cS,cH,cI>> >>, << <<cD,cO>>, <<cG,cU>> >>, << <<cJ,cE,cQ>>, <<cT,cU>> >>, << <<cJ,cE,cQ>>, <<cT,cU>> >>, << <<cH,cO,cA>>, <<cM,cE>> >>,
                << <<cT,cU>>, <<cQ - 1, cO, cQ>> >>, << <<cD,cO>>, <<cF,cA,cI>> >> >>

(* Variable words and hoa. *)
VarWords == << << <<cD,cO>> >>, << <<cD,cO>> >>, << <<cD,cO>> >>, << <<cD,cO>>, <<cS,cH,cI>> >>, << <<cH,cO,cA>> >>, << <<cH,cO,cA>> >> >>
(* Plain syllables of a token, under a profile (lex: share of lexicon words). *)
WordOf(e, pf, r) ==
  IF e.o = "W" THEN
    LET k == RVal(r, 100) r2 == RNext(r) r3 == RNext(r2) r6 == RNext(RNext(RNext(r3))) IN
    IF pf.vars > 0 /\ RVal(RNext(r6), 100) < pf.vars THEN LET c == VarWords[RVal(r2, Len(VarWords)) + 1] IN [j \in 1..Len(c) |-> SylOf(c[j])]
    ELSE IF k < pf.lex THEN <<SylOf(Lexicon[RVal(r2, Len(Lexicon)) + 1])>>
    ELSE IF k < pf.lex + pf.cmp THEN LET c == Compounds[RVal(r2, Len(Compounds)) + 1] IN [j \in 1..Len(c) |-> SylOf(c[j])]
    ELSE IF k < pf.lex + 2 * pf.cmp THEN <<RandSyl(r3), RandSyl(r6)>> ELSE <<RandSyl(r3)>>
  ELSE LET ws == FnWords[e.c] IN
       IF e.c = "RA" /\ pf.ru THEN <<SylOf(ws[RVal(r, 6) + 1])>> ELSE <<SylOf(ws[RVal(r, Len(ws)) + 1])>>
ToneOfTok(e) == IF e.o = "N" THEN NoTone ELSE e.t
(* Spelling of one token: pf.sty is the set of styles in use, as a sequence. *)
SpellTok(e, pf, r, sr) ==
  IF e.o = "SP" THEN Spaces[RVal(sr, IF pf.sp THEN Len(Spaces) ELSE 1) + 1]
  ELSE IF e.o = "Q" THEN IF RVal(r, 3) = 0 THEN <<63, 63>> ELSE <<63>>
  ELSE LET s2 == RNext(sr) s3 == RNext(s2) c == RVal(s2, 100) IN
       SpellWord(WordOf(e, pf, r), ToneOfTok(e), pf.sty[RVal(sr, Len(pf.sty)) + 1],
                 IF c < pf.cap THEN 1 ELSE IF c < 2 * pf.cap THEN 2 ELSE 0, RVal(s3, 2) = 0)
RECURSIVE SpellToks(_, _, _, _, _)
SpellToks(ts, j, pf, r, sr) == IF j > Len(ts) THEN <<>>
   ELSE SpellTok(ts[j], pf, r, sr) \o SpellToks(ts, j + 1, pf, RWarm(r), RWarm(sr))

(* ----- Damage: texts next to the language ----- *)
AnyTok(r) == LET k == RVal(r, 30) r2 == RNext(r) IN
   IF k < 17 THEN N(NClasses[k + 1]) ELSE IF k < 24 THEN W(WordTones[RVal(r2, 6) + 1])
   ELSE IF k < 28 THEN F(<<"LU","MI","PO","MO">>[k - 23], WordTones[RVal(r2, 6) + 1]) ELSE SP
DelAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
DamageToks(ts, r) ==
  IF ts = <<>> THEN <<AnyTok(r)>> ELSE
  LET i == RVal(r, Len(ts)) + 1 r2 == RNext(r) k == RVal(r2, 6) r3 == RNext(r2) j == RVal(r3, Len(ts)) + 1 IN
  CASE k = 0 -> DelAt(ts, i)
    [] k = 1 -> InsAt(ts, i, AnyTok(r3))
    [] k = 2 -> [ts EXCEPT ![i] = AnyTok(r3)]
    [] k = 3 -> [ts EXCEPT ![i] = ts[j], ![j] = ts[i]]
    [] k = 4 -> SubSeq(ts, 1, i)
    [] k = 5 -> InsAt(ts, i, ts[j])
OddChars == <<cA, cE, cI, cO, cU, cQ, cH, cM, cS, cC, cD, 45, 47, 86, 63, 94, 92, 126, 49, 50, 55, 56, 48, 769, 780, 774, 772, 32, 46, 305, 225, 462, 259, 7843,
   118, 119, 120, 121, 122, 87, 88, 89, 90, 43, 36, 61, 124, 96, 60, 233, 8217, 167, 12290, 128512, 1114112 + 255, 65533, 160, 0 + 127, 8203, 304, 7911, 301, cR, cB, cN >>
DamageChars(s, r) ==
  IF s = <<>> THEN <<OddChars[RVal(r, Len(OddChars)) + 1]>> ELSE
  LET i == RVal(r, Len(s)) + 1 r2 == RNext(r) k == RVal(r2, 4) r3 == RNext(r2) c == OddChars[RVal(r3, Len(OddChars)) + 1] IN
  CASE k = 0 -> DelAt(s, i)
    [] k = 1 -> InsAt(s, i, c)
    [] k = 2 -> [s EXCEPT ![i] = c]
    [] k = 3 -> SubSeq(s, 1, i)

(* ----- Profiles ----- *)
P0 == [bud |-> 14, fm |-> 30, nosp |-> 60, boost |-> {}, mute |-> {}, lex |-> 40, cmp |-> 8, vars |-> 0, ru |-> FALSE, sty |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, sp |-> TRUE, cap |-> 6, mut |-> 25, root |-> "text"]
(* The token sequence of a case. *)
DeriveCase(pf, r) ==
  LET r2 == RNext(r) r3 == RNext(r2) IN
  Dv(R(pf.root), [r |-> RWarm(r3), out |-> <<>>, bud |-> 1 + RVal(r2, pf.bud), sw |-> RVal(r3, 5000), pf |-> pf, ri |-> 1]).out
(* The text of a case. *)
TextCase(pf, r) ==
  LET ts == DeriveCase(pf, r)
      r2 == RWarm(RNext(r))
      r3 == RWarm(r2)
      m == RVal(r2, 100)
      ts2 == IF m < pf.mut THEN DamageToks(ts, r3) ELSE ts
      s == SpellToks(ts2, 1, pf, RWarm(r3), RWarm(RNext(r3)))
  IN  IF m < pf.mut \div 3 \/ (m >= pf.mut /\ m < pf.mut + pf.mut \div 2) THEN DamageChars(s, RNext(r3)) ELSE s
=============================================================================
