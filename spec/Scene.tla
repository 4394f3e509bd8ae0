-------------------------------- MODULE Scene --------------------------------
(* Statements put together from a few words so that the constructs of the      *)
(* interpretation meet often: several linked arguments, variables quantified   *)
(* again inside their scope, connectives inside connectives, prenexes, ...     *)
(* A scene state: r random source, out text, b words left, used places linked   *)
(* in this clause, w weights in per cent.                                      *)
EXTENDS Gen

SRoll(st, n) == RVal(st.r, n)
SNext(st) == [st EXCEPT !.r = RWarm(@)]
SPick(st, s) == s[SRoll(st, Len(s)) + 1]
SHit(st, p) == SRoll(st, 100) < p
(* Append a word of the given syllables in a tone. *)
Say(st, ys, t) ==
  LET k == RVal(RNext(st.r), 40)
      x == SpellWord([j \in 1..Len(ys) |-> SylOf(ys[j])], t, 1, IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE 0, FALSE)
  IN  [SNext(st) EXCEPT !.out = IF @ = <<>> THEN x ELSE @ \o <<32>> \o x, !.b = @ - 1]
Fn(st, ls) == Say(st, <<ls>>, NoTone)

SVerbs == << << <<cM,cA,cI>> >>, << <<cG,cI>> >>, << <<cP,cO,cQ>> >>, << <<cJ,cA,cI>> >>, << <<cN,cU,cO>> >> >>
SNouns == << << <<cJ,cI>> >>, << <<cS,cU,cQ>> >>, << <<cM,cA,cI>> >>, << <<cP,cO,cQ>> >>, << <<cS,cH,cI>> >> >>
SVars == << << <<cD,cO>> >>, << <<cD,cO>> >>, << <<cD,cO>>, <<cF,cU>> >> >>
SEqual == << <<cJ,cE,cQ>>, <<cT,cU>> >>
SHoa == << <<cH,cO,cA>> >>
Quants == << <<cS,cA>>, <<cT,cU>>, <<cS,cI,cA>>, <<cK,cE>>, <<cH,cI>>, <<cJ,cA>>, <<cS,cA>>, <<cT,cU>> >>
Rus == << <<cR,cU>>, <<cR,cA>>, <<cR,cI>>, <<cR,cU>> >>
Links == << <<cF,cI>>, <<cG,cO>>, <<cC,cU>>, <<cT,cA>> >>
RuOf(st, arg) == IF arg /\ SHit(SNext(st), st.w.roi) THEN <<cR,cO,cI>> ELSE SPick(st, Rus)

RECURSIVE SStmt(_, _), SClause(_, _, _), STerms(_, _, _), STerm(_, _), SArg(_, _), SArg1(_, _), SPred(_, _, _), SSerial(_, _, _), SRel(_, _)
(* Connected, in one of the two forms: the state after the first word(s). *)
Low(st) == st.b <= 0
SEnd(st, p, ls) == IF SHit(st, p) THEN Fn(SNext(st), ls) ELSE SNext(st)

SStmt(st0, d) ==
  LET st == SNext(st0) s2 == SNext(st) IN
  IF ~Low(st) /\ d > 0 /\ SHit(st, st.w.stm) THEN
     IF SHit(s2, 50) THEN SStmt(Fn(SStmt(Fn(Fn(s2, <<cT,cO>>), RuOf(s2, FALSE)), d - 1), <<cT,cO>>), d - 1)
     ELSE SStmt(Fn(SEnd(SClause(s2, d - 1, THook), 50, <<cN,cA>>), RuOf(s2, FALSE)), d - 1)
  ELSE IF ~Low(st) /\ d > 0 /\ SHit(s2, st.w.pren) THEN
     LET s3 == STerms([SNext(s2) EXCEPT !.used = {}], 1 + SRoll(SNext(s2), 3), d - 1)
         s4 == Fn(s3, IF SHit(s3, 60) THEN <<cP,cA>> ELSE <<cB,cI>>)
     IN  SStmt([s4 EXCEPT !.keep = TRUE], d - 1)
  ELSE SClause(s2, d, THook)
SClause(st0, d, t) ==
  LET st == SNext(st0)
      s2 == SSerial(st, d, t)
      u == IF st.keep THEN s2.used ELSE {}
      n == IF Low(s2) THEN SRoll(st, 2) ELSE SRoll(st, st.w.n + 1)
      s3 == STerms([s2 EXCEPT !.used = u, !.keep = FALSE], n, d)
  IN  [s3 EXCEPT !.used = st0.used]
STerms(st, n, d) == IF n = 0 THEN st ELSE STerms(STerm(SNext(st), d), n - 1, d)
STerm(st, d) ==
  LET k == SRoll(st, 100) s2 == SNext(st) w == st.w IN
  IF k < w.lnk /\ st.used # 1..4 THEN
     LET free == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : i \notin st.used) p == SPick(s2, free)
     IN  [SArg(Fn(s2, Links[p]), d) EXCEPT !.used = st.used \cup {p}]
  ELSE IF k < w.lnk + w.adv THEN
     IF SHit(s2, w.conn \div 2) /\ d > 0 THEN SPred(Fn(SPred(Fn(Fn(s2, <<cT,cO>>), RuOf(s2, FALSE)), 0, TTilde), <<cT,cO>>), 0, TTilde)
     ELSE SSerial(s2, IF d > 0 THEN d - 1 ELSE 0, TTilde)
  ELSE IF k < w.lnk + w.adv + w.prep THEN
     IF SHit(s2, w.conn \div 2) /\ d > 0 THEN SArg(SPred(Fn(SArg(SPred(Fn(Fn(s2, <<cT,cO>>), RuOf(s2, FALSE)), 0, TGrave), d - 1), <<cT,cO>>), 0, TGrave), d - 1)
     ELSE SArg(SSerial(s2, 0, TGrave), IF d > 0 THEN d - 1 ELSE 0)
  ELSE IF k < w.lnk + w.adv + w.prep + w.tset /\ d > 0 THEN
     LET s3 == STerms(Fn(Fn(s2, <<cT,cO>>), RuOf(s2, FALSE)), 2, 0) IN STerms(Fn(s3, <<cT,cO>>), 2, 0)
  ELSE SArg(s2, d)
SArg(st, d) ==
  LET s2 == SNext(st) IN
  IF d > 0 /\ ~Low(st) /\ SHit(st, st.w.conn) THEN
     IF SHit(s2, 50) THEN SArg(Fn(SArg(Fn(Fn(s2, <<cT,cO>>), RuOf(s2, TRUE)), d - 1), <<cT,cO>>), d - 1)
     ELSE SArg(Fn(SArg1(SNext(s2), d - 1), RuOf(s2, TRUE)), d - 1)
  ELSE SArg1(s2, d)
SArg1(st0, d) ==
  LET st == IF SHit(st0, 3) THEN Fn(SNext(st0), <<cK,cU>>) ELSE SNext(st0)
      s2 == IF SHit(st, st.w.quant) THEN Fn(SNext(st), SPick(SNext(st), Quants)) ELSE SNext(st)
      s3 == SSerial(SNext(s2), d, TAcute)
  IN  IF d > 0 /\ ~Low(s3) /\ SHit(s3, st.w.rel) THEN SRel(SNext(s3), d - 1) ELSE SNext(s3)
SRel(st, d) ==
  LET s2 == SNext(st) s3 == SNext(s2) IN
  IF d > 0 /\ SHit(st, st.w.conn) THEN
     IF SHit(s2, 50) THEN SRel(Fn(SRel(Fn(Fn(s3, <<cT,cO>>), RuOf(s3, FALSE)), d - 1), <<cT,cO>>), d - 1)
     ELSE SRel(Fn(SEnd(SClause(s3, 0, TCaron), 80, <<cN,cA>>), RuOf(s3, FALSE)), d - 1)
  ELSE IF SHit(s2, 30) THEN SEnd(SStmt(Say(s3, << <<cL,cU>> >>, TCaron), d), 70, <<cN,cA>>)
  ELSE SEnd(SClause(s3, d, TCaron), 70, <<cN,cA>>)
(* A predicate in a tone, and what belongs to it. *)
SSerial(st, d, t) == LET s2 == SNext(st) IN
  IF d > 0 /\ SHit(st, st.w.ser) THEN SPred(SPred(s2, d - 1, t), d - 1, THook) ELSE SPred(s2, d, t)
SPred(st, d, t) ==
  LET k == SRoll(st, 100) s2 == SNext(st) s3 == SNext(s2) w == st.w
      word == IF SHit(s3, w.var) THEN (IF SHit(SNext(s3), 30) THEN SHoa ELSE SPick(SNext(s3), SVars))
              ELSE IF SHit(SNext(s3), w.eq) THEN SEqual
              ELSE IF t = TAcute THEN SPick(s3, SNouns) ELSE SPick(s3, SVerbs)
  IN  IF d = 0 \/ Low(st) THEN Say(s2, IF t # TAcute /\ SRoll(s2, 3) # 0 /\ (word = SHoa \/ (Len(word[1]) = 2 /\ word[1][1] = cD)) THEN SVerbs[1] ELSE word, t)
      ELSE IF k < w.po THEN SEnd(SArg(Say(s2, << SPick(s2, << <<cP,cO>>, <<cJ,cE,cI>> >>) >>, t), d - 1), 50, <<cG,cA>>)
      ELSE IF k < w.po + w.mo THEN Fn(SStmt(Say(s2, << <<cM,cO>> >>, t), d - 1), <<cT,cE,cO>>)
      ELSE IF k < w.po + w.mo + w.mi THEN SEnd(SPred(Say(s2, << SPick(s2, << <<cM,cI>>, <<cS,cH,cU>> >>) >>, t), d - 1, SPick(s2, <<THook, TAcute, TTilde>>)), 50, <<cG,cA>>)
      ELSE IF k < w.po + w.mo + w.mi + w.lu THEN SEnd(SStmt(Say(s2, << SPick(s2, << <<cL,cU>>, <<cL,cU>>, <<cL,cI>>, <<cL,cO>> >>) >>, t), d - 1), 70, <<cN,cA>>)
      ELSE IF k < w.po + w.mo + w.mi + w.lu + w.con /\ t = TAcute THEN
           (IF SRoll(s2, 3) = 0 THEN SEnd(SStmt(Say(s2, << <<cL,cU>> >>, TCirc), d - 1), 70, <<cN,cA>>) ELSE SEnd(SClause(s2, d - 1, TCirc), 70, <<cN,cA>>))
      ELSE IF k < w.po + w.mo + w.mi + w.lu + w.con + w.pcon THEN
           SPred(Fn(SPred(Fn(Fn(s2, <<cT,cO>>), RuOf(s2, FALSE)), d - 1, t), <<cT,cO>>), d - 1, THook)
      ELSE Say(s2, word, t)

W0 == [stm |-> 4, pren |-> 10, lnk |-> 4, adv |-> 4, prep |-> 4, tset |-> 2, conn |-> 5, roi |-> 20, quant |-> 30, rel |-> 10, ser |-> 5,
       var |-> 12, eq |-> 4, po |-> 2, mo |-> 2, mi |-> 2, lu |-> 2, con |-> 4, pcon |-> 3, n |-> 3]
SceneWeights == [g \in {"args", "conn", "quant", "vars", "terms", "plur", "adv", "any"} |->
  CASE g = "args" -> [W0 EXCEPT !.lnk = 38, !.pren = 40, !.stm = 10, !.n = 5, !.tset = 6]
    [] g = "conn" -> [W0 EXCEPT !.conn = 35, !.stm = 15, !.tset = 12, !.pcon = 14, !.roi = 25, !.rel = 18, !.adv = 8, !.prep = 8]
    [] g = "quant" -> [W0 EXCEPT !.quant = 65, !.rel = 25, !.con = 12, !.conn = 12, !.var = 20, !.pren = 20]
    [] g = "vars" -> [W0 EXCEPT !.var = 55, !.quant = 45, !.rel = 25, !.pren = 25, !.conn = 8, !.po = 8, !.con = 8, !.lu = 6]
    [] g = "terms" -> [W0 EXCEPT !.po = 12, !.mo = 8, !.mi = 12, !.lu = 12, !.con = 12, !.ser = 18, !.eq = 15, !.pcon = 5]
    [] g = "plur" -> [W0 EXCEPT !.conn = 45, !.roi = 75, !.quant = 20, !.rel = 8, !.eq = 10, !.var = 15, !.pren = 20]
    [] g = "adv" -> [W0 EXCEPT !.adv = 25, !.prep = 30, !.quant = 40, !.var = 30, !.pren = 25, !.n = 4, !.conn = 8]
    [] OTHER -> W0 ]
(* One to three sentences. *)
RECURSIVE SText(_, _)
SText(st, n) == IF n = 1 THEN SStmt(st, 1 + SRoll(SNext(st), 4)) ELSE SText([Fn(SStmt(st, 1 + SRoll(SNext(st), 3)), <<cD,cA>>) EXCEPT !.b = 6], n - 1)
SceneText(g, r) ==
  LET st == [r |-> RWarm(r), out |-> <<>>, b |-> 4 + RVal(RNext(r), 9), used |-> {}, keep |-> FALSE, w |-> SceneWeights[g]]
      k == RVal(r, 12)
  IN  SText(SNext(st), IF k = 0 THEN 3 ELSE IF k < 3 THEN 2 ELSE 1).out
=============================================================================
