-------------------------------- MODULE Serv --------------------------------
(* What the programs answer: the web service, the chat bot, the command, and  *)
(* the loading of the dictionary.  Each answer is a function of the request.  *)
EXTENDS Dump, Err, Chat

RECURSIVE HasAt(_, _, _)
HasAt(s, sub, i) == i + Len(sub) - 1 <= Len(s) /\ (SubSeq(s, i, i + Len(sub) - 1) = sub \/ HasAt(s, sub, i + 1))
VS(msg, cov) == [msg |-> msg, cov |-> cov]

(* A formula of the specification, with numbers for printing. *)
RECURSIVE Numbered(_)
Numbered(x) == IF IsNil(x) THEN x ELSE
  LET y == [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Numbered(x.c[i])]] IN
  CASE x.k = "Binding" -> y @@ [n |-> x.id]
    [] x.k = "Variable" -> y @@ [n |-> IF x.def >= 0 THEN x.def ELSE 1000000 + x.u]
    [] OTHER -> y

FragmentStr == <<cF, cR, cA, cG, cM, cE, cN, cT>>
BugStr == <<cB, cU, cG, 58, 32>>
SyntaxErrorStr == <<cS, 121, cN, cT, cA, 120, 32, cE, cR, cR, cO, cR, 32>>
(* Everything that is reported about a text. *)
Report(s) ==
  LET p == ParseText(s) IN
  IF ~p.ok THEN [ok |-> FALSE, br |-> <<>>, text |-> <<>>, kind |-> "rejected", pretty |-> <<>>, plain |-> <<>>]
  ELSE LET w == Interpret(p.tree)
           f == TLCEval(Numbered(w.t))
           kind == IF w.err # <<>> THEN "stop" ELSE IF IsNil(w.t) THEN "none" ELSE "formula"
       IN [ok |-> TRUE, br |-> Braces(p.tree, 0), text |-> Spell(p.tree), kind |-> kind,
           pretty |-> IF kind = "formula" THEN PrettyText(f) ELSE FragmentStr,
           plain |-> IF kind = "formula" THEN ShowText(f) ELSE FragmentStr]
LogicOk(rep, got) == IF rep.kind = "stop" THEN StartsWith(got, BugStr) ELSE got = rep.pretty

(* ----- The web service ----- *)
GoodKeys == <<"AST", "Braces", "Logic", "Parse", "Text">>
AnswerWrong(q, g) ==
  CASE q.how = "abort" -> ""
    [] ~g.ans -> "no answer"
    [] q.m = "GET" -> IF g.status # 200 THEN "status " \o ToString(g.status) ELSE IF ~g.same THEN "not the page or file" ELSE ""
    [] q.m # "POST" -> IF g.status # 405 THEN "should be refused, but has status " \o ToString(g.status) ELSE ""
    [] g.status # 200 -> "status " \o ToString(g.status)
    [] ~g.same -> "the answer is not a JSON object"
    [] OTHER ->
         LET rep == Report(q.s) IN
         CASE ~rep.ok -> IF g.keys # <<"Error">> THEN "answer to a rejected text has " \o ToString(g.keys) ELSE IF ~g.lib THEN "another error" ELSE ""
           [] g.keys # GoodKeys -> "answer to an accepted text has " \o ToString(g.keys)
           [] ~g.lib -> "another tree"
           [] g.br # rep.br -> "bracketing should be " \o ToString(rep.br) \o " is " \o ToString(g.br)
           [] g.text # rep.text -> "text should be " \o ToString(rep.text) \o " is " \o ToString(g.text)
           [] ~LogicOk(rep, g.logic) -> "formula should be " \o ToString(IF rep.kind = "stop" THEN BugStr ELSE rep.pretty) \o " is " \o ToString(g.logic)
           [] OTHER -> ""
JServe(r) ==
  LET ds == TLCEval([i \in 1..Len(r.reqs) |-> AnswerWrong(r.reqs[i], r.got[i])])
      bad == {i \in 1..Len(ds) : ds[i] # ""}
  IN VS(IF bad # {} THEN LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN "request " \o ToString(i) \o " (" \o r.reqs[i].m \o "): " \o ds[i]
        ELSE IF r.died THEN "the service stopped" ELSE "", "history")

(* ----- The bot ----- *)
BotReply(e) == LET rep == Report(InputOf(e)) IN
  [stop |-> rep.kind = "stop",
   s |-> IF ~rep.ok THEN SyntaxErrorStr \o e.lib
         ELSE (IF rep.br = <<>> THEN <<>> ELSE rep.br \o <<10>>) \o (IF rep.kind = "stop" THEN BugStr ELSE rep.pretty)]
(* The observed log as a behaviour of module Bot: "" if it is one in which    *)
(* everything is answered in the end.                                         *)
RECURSIVE BotRun(_, _, _)
BotRun(r, i, pend) ==
  IF i > Len(r.log) THEN (IF \E c \in DOMAIN pend : pend[c] # <<>> THEN "a message was not answered" ELSE "")
  ELSE LET x == r.log[i] IN
    IF x.c \notin DOMAIN pend THEN "reply in a channel that was not joined"
    ELSE IF x.t = "ev" THEN BotRun(r, i + 1, BotArrive(pend, x.c, r.evs[x.i]))
    ELSE IF ~BotMaySay(pend, x.c) THEN "an answer that nothing asked for: " \o ToString(x.text)
    ELSE LET want == BotReply(Head(pend[x.c])) IN
         IF IF want.stop THEN StartsWith(x.text, want.s) ELSE x.text = want.s THEN BotRun(r, i + 1, BotSay(pend, x.c))
         ELSE "answer should be " \o ToString(want.s) \o " is " \o ToString(x.text)
JBot(r) ==
  LET d == BotRun(r, 1, [c \in {r.chans[i] : i \in 1..Len(r.chans)} |-> <<>>]) IN
  VS(IF d # "" THEN d
     ELSE IF r.died THEN "the bot stopped"
     ELSE IF r.joins # r.chans THEN "joined " \o ToString(r.joins)
     ELSE IF r.other THEN "something else was done" ELSE "", "history")

(* ----- The dictionary ----- *)
LowerCh(c) == IF c \in 65..90 THEN c + 32 ELSE c
HeadOf(T) == LET u == [i \in 1..Len(T) |-> LowerCh(UnTone(T[i]))]
             IN  [i \in 1..Len(u) |-> u[i]]
(* What a reply stands for: entries under their plain heads, the last of a     *)
(* head winning, or a refusal.                                                *)
(* A list sent several times over (r.times) is the same list: the last entry   *)
(* of a head is then in the last of them.                                     *)
DictLoads(r) == r.how = "fine" /\ r.success = "yes" /\ r.data = "list"
DictDiff(r, words) ==
  LET ks == TLCEval([i \in 1..Len(r.ents) |-> HeadOf(r.ents[i].head)])
      keys == {ks[i] : i \in 1..Len(ks)}
      got == {words[i].key : i \in 1..Len(words)}
      lastOf(k) == CHOOSE i \in 1..Len(ks) : ks[i] = k /\ \A j \in 1..Len(ks) : ks[j] = k => j <= i
      wrong == {i \in 1..Len(words) : LET w == words[i] e == r.ents[lastOf(w.key)] IN
                  w.word # w.key \/ w.body # e.body \/ w.by # e.by \/ w.score # e.score}
  IN IF got # keys THEN "words should be " \o ToString(keys) \o " are " \o ToString(got)
     ELSE IF wrong # {} THEN "entry " \o ToString(words[CHOOSE i \in wrong : TRUE]) ELSE ""
JDict(r) ==
  LET loads == DictLoads(r) IN
  VS(CASE r.panic # "" -> "panic: " \o r.panic
          [] ~r.posted -> "the query was not posted once as it is"
          [] ~loads -> IF r.ok THEN "no error" ELSE IF r.how = "fine" /\ r.success # "yes" /\ r.haserr /\ ~HasAt(r.msg, r.error, 1) THEN "the error leaves out what the service said"
                       ELSE IF Len(r.words) > 0 THEN "words with an error" ELSE ""
          [] ~r.ok -> "an error: " \o ToString(r.msg)
          [] OTHER -> DictDiff(r, r.words), IF loads THEN "loaded" ELSE "refused")
(* The program that writes the list: loads, then writes all of it or nothing. *)
JGen(r) ==
  LET loads == DictLoads(r) writable == r.file \in {"new", "old"} IN
  VS(CASE r.panic # "" -> r.panic
       [] ~r.right -> "not the query for the whole dictionary"
       [] r.posts # 1 /\ r.how # "down" -> "the service was asked " \o ToString(r.posts) \o " times"
       [] ~loads \/ ~writable -> IF r.exit = 0 THEN "no failure" ELSE IF ~r.same THEN "the file changed" ELSE IF r.msg = <<>> THEN "nothing is said"
                       ELSE IF r.how = "fine" /\ r.success # "yes" /\ r.haserr /\ ~HasAt(r.msg, r.error, 1) THEN "the error leaves out what the service said: " \o ToString(r.msg) ELSE ""
       [] r.exit # 0 -> "failed: " \o ToString(r.msg)
       [] r.src # "words" -> r.src
       [] ~r.fmt -> "not formatted"
       [] Len(r.words) # Cardinality({r.words[i].key : i \in 1..Len(r.words)}) -> "a word twice"
       [] OTHER -> DictDiff(r, r.words), IF ~loads THEN "refused" ELSE IF writable THEN "written" ELSE "unwritable")
JWords(r) ==
  LET bad == {i \in 1..Len(r.words) : r.words[i].key # r.words[i].word} IN
  VS(IF bad # {} THEN "built-in word " \o ToString(r.words[CHOOSE i \in bad : TRUE]) ELSE "", "built-in")

(* ----- The command ----- *)
JCli(r) ==
  IF r.panic # "" THEN VS(r.panic, "panic")
  ELSE IF r.how \in {"missing", "dir"} THEN VS(IF r.exit = 0 THEN "an unreadable file is no failure" ELSE IF ~r.some THEN "nothing is said" ELSE "", "unreadable")
  ELSE LET rep == Report(r.s)
           head == rep.text \o <<10>> \o rep.br \o <<10>>
       IN VS(CASE ~rep.ok -> IF r.exit # 1 THEN "exit status " \o ToString(r.exit) ELSE IF ~r.lib THEN "not the failure and error of the text" ELSE ""
               [] ~r.lib -> "not the trees of the text"
               [] rep.kind = "stop" -> IF r.exit = 0 THEN "an unfinished interpretation is no failure" ELSE IF ~StartsWith(r.rest, head) THEN "not the text and bracketing" ELSE ""
               [] r.exit # 0 -> "exit status " \o ToString(r.exit)
               [] rep.kind = "none" -> IF r.rest # head \o FragmentStr \o <<10>> THEN "output should be " \o ToString(head \o FragmentStr) \o " is " \o ToString(r.rest) ELSE ""
               [] OTHER -> LET want == head \o <<0, 10>> \o rep.plain \o <<10>> IN IF r.rest # want THEN "output should be " \o ToString(want) \o " is " \o ToString(r.rest) ELSE "",
             rep.kind)
=============================================================================
