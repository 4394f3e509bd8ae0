--------------------------------- MODULE Bot ---------------------------------
(* The bot from outside, as a state machine: replies, in each channel, are    *)
(* those to the asking events, in order.                                      *)
EXTENDS Chat
CONSTANTS Chans, Events
VARIABLES pend, replies
bvars == <<pend, replies>>
BInit == pend = [c \in Chans |-> <<>>] /\ replies = [c \in Chans |-> <<>>]
Arrive(c, e) == pend' = BotArrive(pend, c, e) /\ UNCHANGED replies
Reply(c) == /\ BotMaySay(pend, c)
            /\ replies' = [replies EXCEPT ![c] = Append(@, InputOf(Head(pend[c])))]
            /\ pend' = BotSay(pend, c)
BNext == \E c \in Chans : Reply(c) \/ \E e \in Events : Arrive(c, e)
BSpec == BInit /\ [][BNext]_bvars /\ \A c \in Chans : WF_bvars(Reply(c))
=============================================================================
