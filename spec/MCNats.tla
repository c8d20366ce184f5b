------------------------------- MODULE MCNats -------------------------------
(* All behaviours of NatsClient in a small world: one client, its owner, two    *)
(* takers, and a server with a few distinct messages; checked exhaustively for  *)
(* what the operations promise together.                                        *)
EXTENDS NatsClient, SequencesExt, FiniteSetsExt
CONSTANTS MaxCalls, MaxMsgs, MaxTime
VARIABLES calls, sent, got, rep     \* operations begun; messages routed <<sub, m>>; what takes handed out: <<sub of a reply or 0, m, inbox at the call>>
vars == <<cvars, calls, sent, got, rep>>
C == 0
Threads == 1..3
Init == CInit({C}, Threads) /\ calls = 0 /\ sent = <<>> /\ got = <<>> /\ rep = <<>>
New(n) == [r |-> 0, d |-> n, nr |-> 0]
Begin ==
  /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<sent, got, rep>>
  /\ \/ \E o \in {"sub", "newin", "destroy", "connect"} : Call(1, [o |-> o, c |-> C, s |-> 1, g |-> 0, y |-> IF calls = 0 THEN 1 ELSE 0, ms |-> 0, at |-> box[C]])
     \/ \E t \in {2, 3}, o \in {"next", "nexti"}, ms \in {-1, 1} : Call(t, [o |-> o, c |-> C, ms |-> ms, at |-> box[C]])
Library ==
  /\ UNCHANGED <<calls, got, rep>>
  /\ \/ /\ UNCHANGED sent
        /\ \/ pend[1].o = "sub" /\ pend[1].sid = 0 /\ Sub(Len(subs) + 1, 1, C, 1, 0)
           \/ pend[1].o = "newin" /\ pend[1].sid = 0 /\ Sub(Len(subs) + 1, 1, C, 100 + Len(subs), 0)
           \/ pend[1].o \in {"sub", "newin"} /\ pend[1].bad = {} /\ pend[1].sid = 0 /\ Refuse(1, 9)
           \/ \E i \in 1..Len(subs) : Unsub(i) /\ i # pend[1].sid
           \/ \E i \in 1..Len(subs) : subs[i].lib # <<>> /\ Hand(i, Head(subs[i].lib))
           \/ \E i \in 1..Len(subs) : Put(i)
           \/ \E i \in 1..Len(subs) : subs[i].fl # <<>> /\ HandEnd(i)
           \/ now < MaxTime /\ Pass(now + 1)
     \/ /\ Len(sent) < MaxMsgs
        /\ \E i \in 1..Len(subs) : Route(i, New(Len(sent) + 1)) /\ sent' = Append(sent, <<i, New(Len(sent) + 1)>>)
Inside ==
  /\ UNCHANGED <<calls, sent>>
  /\ \E t \in Threads :
       \/ Take(t) /\ got' = Append(got, pend'[t].res[1]) /\ UNCHANGED rep
       \/ TakeReply(t) /\ rep' = Append(rep, <<pend'[t].res[1], pend[t].at>>) /\ UNCHANGED got
       \/ (None(t) \/ Purge(t)) /\ UNCHANGED <<got, rep>>
Back ==
  /\ UNCHANGED <<calls, sent, got, rep>>
  /\ \E t \in Threads : CASE pend[t].o = "sub" -> \E st \in {0, 9} : RetSub(t, st)
       [] pend[t].o = "newin" -> \E st \in {0, 9} : RetNewInbox(t, st)
       [] pend[t].o \in {"next", "nexti"} -> RetTake(t, pend[t].res)
       [] pend[t].o = "connect" -> RetConnect(t, 0)
       [] pend[t].o = "destroy" -> RetDestroy(t)
       [] OTHER -> FALSE
Next == Begin \/ Library \/ Inside \/ Back
Spec == Init /\ [][Next]_vars

SubOf(m) == sent[m.d][1]
\* messages come out at most once, and those of one subscription in the order they were sent
Increasing(s) == \A i, j \in 1..Len(s) : i < j /\ SubOf(s[i]) = SubOf(s[j]) => s[i].d < s[j].d
Once == \A i, j \in 1..Len(got) : i # j => got[i].d # got[j].d
InOrder == Increasing(got) /\ Increasing([i \in 1..Len(rep) |-> rep[i][1]])
NoMixUp == (\A i \in 1..Len(got) : ~subs[SubOf(got[i])].box) /\ (\A i \in 1..Len(rep) : subs[SubOf(rep[i][1])].box)
\* a reply handed out is one to the inbox of the time of the call, or to a later one
OwnReply == \A i \in 1..Len(rep) : SubOf(rep[i][1]) >= rep[i][2]
\* as long as its subscription lives, a message is somewhere
Kept == \A i \in 1..Len(sent) : LET s == sent[i][1]
                                    m == sent[i][2]
                                IN subs[s].live /\ ~subs[s].box =>
                                   (IF m \in Range(subs[s].lib) THEN 1 ELSE 0) +
                                   (IF subs[s].fl = <<m>> /\ ~subs[s].put THEN 1 ELSE 0) + (IF m \in Range(q[C]) THEN 1 ELSE 0) + (IF m \in Range(got) THEN 1 ELSE 0) = 1
\* a client that has gone receives nothing
GoneQuiet == state[C] = "gone" => \A i \in 1..Len(subs) : ~subs[i].live /\ (subs[i].fl = <<>> \/ subs[i].put)
\* an operation under way can always still come back once messages are there or its excuse holds
CanReturn == \A t \in Threads : (pend[t].o \in {"next", "nexti"} /\ ~pend[t].done /\ (Excuse(t) \/ ~Empty(t))) => ENABLED (Take(t) \/ TakeReply(t) \/ None(t))
=============================================================================
