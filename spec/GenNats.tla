------------------------------- MODULE GenNats -------------------------------
(* Scenarios for the real NATS clients: what each thread does, in a small       *)
(* world of one or two clients, three subjects and a program publishing from    *)
(* elsewhere. The first thread of a client owns it: it alone subscribes,        *)
(* changes the inbox and ends the client; other threads only take messages.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
VARIABLE n
Rnd(a, b) == RandomElement(a..b)
Pick(s) == s[RandomElement(1..Len(s))]
One(x) == RandomElement(1..x) = 1
Some(lo, hi, F(_)) == LET k == Rnd(lo, hi) IN [j \in 1..k |-> F(j)]
MsgId(z) == Rnd(0, 6) + 7 * Rnd(0, 1) * z
Ms(z) == Pick(<<-1, -1, 0, 30, 30, 100>>)
Subj(z) == Rnd(1, 3)
Op(z, ops) == ops
SubOp(z) == IF One(12) THEN <<"sub", 0, Rnd(0, 1)>>
            ELSE IF One(4) THEN <<"qsub", Rnd(1, 2), IF One(10) THEN 0 ELSE 1, Rnd(0, 1)>>
            ELSE <<"sub", Rnd(1, 2), Rnd(0, 1)>>
OwnerOp(z) ==
  CASE Rnd(1, 20) \in 1..3 -> SubOp(z)
    [] Rnd(1, 17) \in 1..5 -> <<"next", Pick(<<0, 30, 100>>)>>
    [] Rnd(1, 12) \in 1..2 -> <<"newin">>
    [] Rnd(1, 10) \in 1..2 -> <<"nexti", Pick(<<0, 30, 100>>)>>
    [] Rnd(1, 8) \in 1..2 -> <<"pub", Subj(z), MsgId(z), Rnd(-1, 3)>>
    [] Rnd(1, 6) = 1 -> <<"ask", Rnd(1, 2), MsgId(z), Pick(<<30, 100>>)>>
    [] Rnd(1, 5) = 1 -> <<"sleep", Pick(<<30, 100>>)>>
    [] Rnd(1, 4) = 1 -> <<"fail", Pick(<<2, 4, 15>>)>>
    [] Rnd(1, 3) = 1 -> Pick(<<<<"subject">>, <<"inbox">>, <<"subject">>, <<"connect">>>>)
    [] OTHER -> <<"serve", Pick(<<30, 100, -1>>)>>
Taker(z) == Pick(<<<<"next", Ms(z)>>, <<"next", Ms(z)>>, <<"nexti", Ms(z)>>, <<"serve", Ms(z)>>, <<"sleep", 30>>>>)
Outside(z) == IF One(5) THEN <<"sleep", Pick(<<30, 100>>)>> ELSE <<"spub", Rnd(1, 2), MsgId(z), IF One(3) THEN 3 ELSE 0>>
Ending(z) == IF One(3) THEN <<<<"destroy", Rnd(0, 3)>>>> ELSE <<>>
Kind(z) == Pick(<<1, 2, 2, 3, 4, 5, 5, 6>>)
Threads(k) ==
  CASE k = 1 -> \* a subscriber with takers, and outside messages
         <<[c |-> 0, ops |-> <<SubOp(1)>> \o Some(0, 3, OwnerOp) \o Ending(1)], [c |-> 0, ops |-> Some(1, 2, Taker)], [c |-> -1, ops |-> Some(1, 4, Outside)]>>
    [] k = 2 -> \* requests and replies
         <<[c |-> 0, ops |-> <<<<"sub", 1, Rnd(0, 1)>>>> \o Some(2, 5, LAMBDA z : IF One(3) THEN <<"sleep", 30>> ELSE <<"serve", Pick(<<-1, 100>>)>>) \o Ending(1)],
           [c |-> 1, ops |-> Some(2, 4, LAMBDA z : IF One(4) THEN <<"sleep", Pick(<<30, 100>>)>> ELSE <<"ask", 1, MsgId(z), Pick(<<0, 30, 30, 100>>)>>) \o Ending(2)],
           [c |-> -1, ops |-> Some(0, 1, Outside)]>>
    [] k = 3 -> \* one taker for the subscription, one for the replies, and shutdown
         <<[c |-> 0, ops |-> <<SubOp(1), <<"newin">>>> \o Some(0, 2, OwnerOp) \o <<<<"pub", Rnd(1, 2), MsgId(2), -1>>>> \o Ending(1)],
           [c |-> 0, ops |-> <<<<"next", Ms(3)>>, <<"next", Ms(4)>>>>], [c |-> 0, ops |-> <<<<"nexti", Ms(3)>>>>],
           [c |-> -1, ops |-> Some(0, 2, Outside)]>>
    [] k = 4 -> \* two clients on the same subject or in the same queue group
         <<[c |-> 0, ops |-> <<SubOp(1)>> \o Some(1, 2, LAMBDA z : <<"next", Pick(<<-1, 100>>)>>)],
           [c |-> 1, ops |-> <<SubOp(2)>> \o Some(1, 2, LAMBDA z : <<"next", Pick(<<-1, 100>>)>>) \o Ending(1)],
           [c |-> -1, ops |-> Some(2, 4, Outside)]>>
    [] k = 5 -> \* changing the subscription or the inbox again and again
         <<[c |-> 0, ops |-> Some(3, 6, OwnerOp) \o Ending(1)], [c |-> 1, ops |-> Some(1, 4, OwnerOp)], [c |-> -1, ops |-> Some(1, 2, Outside)]>>
    [] OTHER -> \* many takers, few messages
         <<[c |-> 0, ops |-> <<<<"sub", 1, Rnd(0, 1)>>, <<"next", Ms(1)>>>> \o Ending(1)],
           [c |-> 0, ops |-> <<<<"next", Ms(2)>>>>], [c |-> 0, ops |-> <<<<"next", Ms(3)>>>>],
           [c |-> -1, ops |-> <<<<"spub", 1, MsgId(1), 0>>, <<"spub", 1, MsgId(2), 0>>>> \o Some(0, 2, Outside)]>>
Init == n = 0
Next == n' = n + 1 /\ \E k \in {Kind(n)} : \E th \in {TLCEval(Threads(k))} : PrintT("@" \o ToJson([threads |-> th, clients |-> 2]))
Spec == Init /\ [][Next]_n
=============================================================================
