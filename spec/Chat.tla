-------------------------------- MODULE Chat --------------------------------
(* Which chat events the bot answers, and the steps of a bot as seen from     *)
(* outside: an event arrives in a channel; a reply is sent to a channel.      *)
(* An event: t (kind), from (has a sender), nick (of the sender), s (text).   *)
EXTENDS Chars

Prefix == <<46, cM, cI, cU>>                         \* .miu
BridgeNick == "ToaqBridgeBot"
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* Position of the first ": ", 0 if there is none. *)
RECURSIVE ColonAt(_, _)
ColonAt(s, i) == IF i >= Len(s) THEN 0 ELSE IF s[i] = 58 /\ s[i+1] = 32 THEN i ELSE ColonAt(s, i + 1)
(* What was said: a message relayed by the bridge is preceded by its sender. *)
Said(e) == IF ~e.from \/ e.nick # BridgeNick THEN e.s
           ELSE LET i == ColonAt(e.s, 1) IN IF i = 0 THEN e.s ELSE SubSeq(e.s, i + 2, Len(e.s))
Asks(e) == e.t = "msg" /\ StartsWith(Said(e), Prefix)
InputOf(e) == IF Asks(e) THEN TrimR(TrimL(SubSeq(Said(e), Len(Prefix) + 1, Len(Said(e))))) ELSE <<>>

(* The state: pend, for each channel the events still to be answered. *)
BotArrive(pend, c, e) == IF Asks(e) THEN [pend EXCEPT ![c] = Append(@, e)] ELSE pend
BotMaySay(pend, c) == pend[c] # <<>>
BotSay(pend, c) == [pend EXCEPT ![c] = Tail(@)]
=============================================================================
