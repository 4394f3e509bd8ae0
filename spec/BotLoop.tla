------------------------------- MODULE BotLoop -------------------------------
(* The design of bot/bot.go: one loop per channel, which receives an event,    *)
(* repairs the text of a bridge message, and answers it if it asks.  Checked   *)
(* to be a bot in the sense of module Bot, and to answer everything.           *)
EXTENDS Chat
CONSTANTS Chans, MaxEv
VARIABLES queue, hand, sent, count
lvars == <<queue, hand, sent, count>>

Ev(t, from, nick, s) == [t |-> t, from |-> from, nick |-> nick, s |-> s]
Sp == <<32>>
Who == <<cA, 58, 32>>
Events == { Ev("msg", TRUE, "x", Prefix \o Sp \o <<cA>>), Ev("msg", TRUE, "x", <<cB>>), Ev("edit", TRUE, "x", Prefix \o <<cC>>),
            Ev("msg", FALSE, "", Prefix \o <<cD>>), Ev("msg", TRUE, BridgeNick, Who \o Prefix \o <<cE>>), Ev("msg", TRUE, "x", Who \o Prefix \o <<cF>>),
            Ev("msg", TRUE, BridgeNick, Who \o <<cG>>), Ev("msg", TRUE, BridgeNick, Prefix \o <<cH>>), Ev("msg", TRUE, BridgeNick, Prefix \o Who \o <<cH>>) }
None == [t |-> "none"]
LInit == /\ queue = [c \in Chans |-> <<>>] /\ hand = [c \in Chans |-> None]
         /\ sent = [c \in Chans |-> <<>>] /\ count = [c \in Chans |-> 0]
Deliver(c, e) == /\ count[c] < MaxEv
                 /\ queue' = [queue EXCEPT ![c] = Append(@, e)] /\ count' = [count EXCEPT ![c] = @ + 1] /\ UNCHANGED <<hand, sent>>
Receive(c) == /\ hand[c] = None /\ queue[c] # <<>>
              /\ queue' = [queue EXCEPT ![c] = Tail(@)]
              /\ hand' = [hand EXCEPT ![c] = IF Asks(Head(queue[c])) THEN Head(queue[c]) ELSE None]
              /\ UNCHANGED <<sent, count>>
Answer(c) == /\ hand[c] # None
             /\ sent' = [sent EXCEPT ![c] = Append(@, InputOf(hand[c]))]
             /\ hand' = [hand EXCEPT ![c] = None] /\ UNCHANGED <<queue, count>>
LNext == \E c \in Chans : Receive(c) \/ Answer(c) \/ \E e \in Events : Deliver(c, e)
LSpec == LInit /\ [][LNext]_lvars /\ \A c \in Chans : WF_lvars(Receive(c)) /\ WF_lvars(Answer(c))

Unanswered(c) == (IF hand[c] = None THEN <<>> ELSE <<hand[c]>>) \o SelectSeq(queue[c], Asks)
Abs == INSTANCE Bot WITH pend <- [c \in Chans |-> Unanswered(c)], replies <- sent
Refines == Abs!BInit /\ [][Abs!BNext]_(Abs!bvars)
AllAnswered == \A c \in Chans : []<>(Unanswered(c) = <<>> \/ count[c] < MaxEv)
NoStray == \A c \in Chans : Len(sent[c]) <= count[c]
=============================================================================
