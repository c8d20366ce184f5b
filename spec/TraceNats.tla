------------------------------ MODULE TraceNats ------------------------------
(* Records of the real client (env TRACES) checked against NatsClient: each is *)
(* a behaviour of the specification when its last event can be reached.        *)
EXTENDS NatsClient, TLC, Json, IOUtils, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i
vars == <<cvars, tr, i>>
Ev == Traces[tr].ev[i]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ CInit(0..2, 0..30)
\* what the record says the operation came back with (a message, nothing, or never)
Agrees(t) == pend'[t].res = pend[t].v
Event ==
  LET e == Ev IN
  CASE e.n # now -> Pass(e.n)
    [] e.e = "call" -> Call(e.t, e @@ [y |-> 0, ms |-> 0, v |-> <<>>])
    [] e.e = "sub" -> Sub(e.sid, e.t, e.c, e.s, e.g)
    [] e.e = "unsub" -> Unsub(e.sid)
    [] e.e = "route" -> Route(e.sid, Msg(e))
    [] e.e = "cb" -> Hand(e.sid, Msg(e))
    [] e.e \in {"cbend", "poll"} -> HandEnd(e.sid)
    [] e.e = "srv" -> Srv(e.t, e.s, e.r, e.d)
    [] e.e = "fail" -> Refuse(e.t, e.st)
    [] e.e = "misuse" -> FALSE          \* a handle used after it was given back
    [] e.e = "quiet" -> AtRest /\ UNCHANGED cvars
    [] e.e = "ret" -> LET o == pend[e.t].o IN
         CASE o = "sub" -> RetSub(e.t, e.st)
           [] o = "newin" -> RetNewInbox(e.t, e.st)
           [] o \in {"next", "nexti"} -> RetTake(e.t, IF e.any = 1 THEN <<[r |-> e.r, d |-> e.d, nr |-> 0]>> ELSE <<>>)
           [] o = "pub" -> RetPub(e.t, e.st)
           [] o = "subject" -> RetSubject(e.t, e.s)
           [] o = "inbox" -> RetInbox(e.t, e.s)
           [] o = "connect" -> RetConnect(e.t, e.st)
           [] o = "destroy" -> RetDestroy(e.t)
           [] OTHER -> FALSE
Step == i <= Len(Traces[tr].ev) /\ Event /\ i' = (IF Ev.n # now THEN i ELSE i + 1) /\ UNCHANGED tr
        /\ (i' = Len(Traces[tr].ev) + 1 => PrintT("@" \o ToJson([ok |-> Traces[tr].id])))
        /\ (IOEnv.SHOW = "1" => PrintT("@" \o ToJson([id |-> Traces[tr].id, at |-> i'])))
Hidden == i <= Len(Traces[tr].ev) /\ UNCHANGED <<tr, i>>
          /\ (\/ \E t \in DOMAIN pend : ((Take(t) \/ TakeReply(t) \/ None(t)) /\ Agrees(t)) \/ Purge(t)
              \/ \E s \in 1..Len(subs) : Put(s))
Next == Step \/ Hidden
Spec == Init /\ [][Next]_vars
=============================================================================
