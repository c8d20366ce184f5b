----------------------------- MODULE NatsClient -----------------------------
(* NATS clients: a server, the subscriptions the clients hold at the library,  *)
(* the messages each client has received and not yet handed out, and the       *)
(* operations under way on the clients, of any thread, each of which takes     *)
(* effect at one moment between its call and its return.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  subs,     \* subscriptions at the library, by number: [c, s, g, box, live, lib, fl, put]
            \*   lib: messages the server has routed there, fl: the one being delivered (<<>> or <<m>>),
            \*   put: it has been received
  q,        \* client -> messages received on its subscription, oldest first
  iq,       \* client -> <<subscription, message>> received on its inboxes
  box,      \* client -> its inbox (0: none)
  state,    \* client -> "up" | "dying" | "gone"
  halted,   \* client -> its subscription has ended without a new one taking its place
  sync,     \* client -> the last subscription asked for is a synchronous one
  used,     \* subjects that have been used
  now,      \* time
  pend      \* thread -> the operation under way
cvars == <<subs, q, iq, box, state, halted, sync, used, now, pend>>

Idle == [o |-> "-"]
Msg(e) == [r |-> e.r, d |-> e.d, nr |-> e.nr]
Mine(c) == {i \in 1..Len(subs) : subs[i].c = c}
Live(c, b) == {i \in Mine(c) : subs[i].live /\ subs[i].box = b}
Owner(c) == {t \in DOMAIN pend : pend[t].o \in {"sub", "newin", "destroy", "connect"} /\ pend[t].c = c}
Doing(c, o) == \E t \in DOMAIN pend : pend[t].o = o /\ pend[t].c = c

CInit(clients, threads) ==
  /\ subs = <<>> /\ q = [c \in clients |-> <<>>] /\ iq = [c \in clients |-> <<>>] /\ box = [c \in clients |-> 0]
  /\ state = [c \in clients |-> "up"] /\ halted = [c \in clients |-> FALSE] /\ sync = [c \in clients |-> FALSE]
  /\ used = {0} /\ now = 0 /\ pend = [t \in threads |-> Idle]

\* --- what the library and the server do ------------------------------------------------
\* a new subscription; within newin it is the client's new inbox, of a subject never used before
Sub(sid, t, c, s, g) ==
  /\ sid = Len(subs) + 1 /\ pend[t].o \in {"sub", "newin"} /\ pend[t].c = c /\ state[c] = "up"
  /\ (pend[t].o = "sub" => s = pend[t].s /\ g = pend[t].g)
  /\ (pend[t].o = "newin" => s \notin used /\ g = 0)
  /\ subs' = Append(subs, [c |-> c, s |-> s, g |-> g, box |-> pend[t].o = "newin", live |-> TRUE, lib |-> <<>>, fl |-> <<>>, put |-> FALSE])
  /\ used' = used \cup {s}
  /\ pend' = [pend EXCEPT ![t].sid = sid]
  /\ UNCHANGED <<q, iq, box, state, halted, sync, now>>
Unsub(sid) == /\ subs[sid].live /\ Owner(subs[sid].c) # {}
              /\ subs' = [subs EXCEPT ![sid].live = FALSE, ![sid].lib = <<>>] /\ UNCHANGED <<q, iq, box, state, halted, sync, used, now, pend>>
Route(sid, m) == /\ subs[sid].live /\ subs' = [subs EXCEPT ![sid].lib = Append(@, m)]
                 /\ UNCHANGED <<q, iq, box, state, halted, sync, used, now, pend>>
\* the library hands a message to the client (callback, or answer to a poll) ...
Hand(sid, m) == /\ subs[sid].lib # <<>> /\ Head(subs[sid].lib) = m /\ subs[sid].fl = <<>> /\ state[subs[sid].c] # "gone"
                /\ subs' = [subs EXCEPT ![sid].lib = Tail(@), ![sid].fl = <<m>>, ![sid].put = FALSE]
                /\ UNCHANGED <<q, iq, box, state, halted, sync, used, now, pend>>
\* ... which has it once it is done; status messages saying nobody answers are no messages
Put(sid) == /\ subs[sid].fl # <<>> /\ ~subs[sid].put
            /\ subs' = [subs EXCEPT ![sid].put = TRUE]
            /\ LET m == subs[sid].fl[1]
                   c == subs[sid].c
               IN IF m.nr = 1 THEN UNCHANGED <<q, iq>>
                  ELSE IF subs[sid].box THEN iq' = [iq EXCEPT ![c] = Append(@, <<sid, m>>)] /\ UNCHANGED q
                  ELSE q' = [q EXCEPT ![c] = Append(@, m)] /\ UNCHANGED iq
            /\ UNCHANGED <<box, state, halted, sync, used, now, pend>>
HandEnd(sid) == /\ (subs[sid].fl # <<>> => subs[sid].put) /\ subs' = [subs EXCEPT ![sid].fl = <<>>]
                /\ UNCHANGED <<q, iq, box, state, halted, sync, used, now, pend>>
\* a publish reaches the server: exactly once, as asked for
Srv(t, s, r, d) == /\ pend[t].o = "pub" /\ ~pend[t].done /\ pend[t].s = s /\ pend[t].r = r /\ pend[t].d = d
                   /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, now>>
\* the library refuses
Refuse(t, st) == pend' = [pend EXCEPT ![t].bad = @ \cup {st}] /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, now>>
Pass(n) == now' = n /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, pend>>

\* --- operations --------------------------------------------------------------------------
Call(t, op) ==
  /\ pend[t] = Idle /\ state[op.c] = "up"
  /\ pend' = [pend EXCEPT ![t] = op @@ [done |-> FALSE, bad |-> {}, sid |-> 0, from |-> now, res |-> <<>>]]
  /\ state' = (IF op.o = "destroy" THEN [state EXCEPT ![op.c] = "dying"] ELSE state)
  /\ sync' = (IF op.o = "sub" THEN [sync EXCEPT ![op.c] = @ \/ op.y = 1] ELSE sync)
  /\ UNCHANGED <<subs, q, iq, box, halted, used, now>>
Taking(t, o) == pend[t].o = o /\ ~pend[t].done
\* handing out the oldest message
Take(t) ==
  /\ Taking(t, "next")
  /\ LET c == pend[t].c IN q[c] # <<>> /\ q' = [q EXCEPT ![c] = Tail(@)] /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = <<Head(q[c])>>]
  /\ UNCHANGED <<subs, iq, box, state, halted, sync, used, now>>
\* inboxes whose replies may be handed out: the client's, and while it changes also the new one
Boxes(c) == {box[c]} \cup {pend[t].sid : t \in {x \in DOMAIN pend : pend[x].o = "newin" /\ pend[x].c = c}}
TakeReply(t) ==
  /\ Taking(t, "nexti")
  /\ LET c == pend[t].c
         ok == {i \in 1..Len(iq[c]) : iq[c][i][1] \in Boxes(c) /\ \A j \in 1..i - 1 : iq[c][j][1] # iq[c][i][1]}
     IN \E i \in ok : /\ iq' = [iq EXCEPT ![c] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                      /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = <<iq[c][i][2]>>]
  /\ UNCHANGED <<subs, q, box, state, halted, sync, used, now>>
\* coming back without a message: nothing is there, and the time is up or the client or its
\* synchronous subscription ends
Empty(t) == LET c == pend[t].c IN IF pend[t].o = "next" THEN q[c] = <<>> ELSE \A i \in 1..Len(iq[c]) : iq[c][i][1] # box[c] \/ Doing(c, "newin")
Excuse(t) == LET c == pend[t].c
             IN \/ pend[t].ms >= 0 /\ now >= pend[t].from + pend[t].ms
                \/ state[c] = "dying"
                \/ pend[t].o = "next" /\ sync[c] /\ (halted[c] \/ Doing(c, "sub") \/ Doing(c, "connect"))
None(t) == /\ (Taking(t, "next") \/ Taking(t, "nexti")) /\ Empty(t) /\ Excuse(t)
           /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, now>>
\* the previous inbox ends with what it holds
Purge(t) == /\ pend[t].o = "newin" /\ LET c == pend[t].c IN
                 /\ \E i \in 1..Len(iq[c]) : iq[c][i][1] # pend[t].sid
                 /\ iq' = [iq EXCEPT ![c] = SelectSeq(@, LAMBDA x : x[1] = pend[t].sid)]
            /\ UNCHANGED <<subs, q, box, state, halted, sync, used, now, pend>>

Done(t) == pend' = [pend EXCEPT ![t] = Idle]
Quiescent(S) == \A i \in S : ~subs[i].live /\ (subs[i].fl = <<>> \/ subs[i].put)
\* a subscription asked for: status 0 with exactly that one live, or the library's refusal
RetSub(t, st) ==
  LET p == pend[t]
      c == p.c
      wrong == p.s = 0 \/ p.g < 0
  IN /\ IF wrong THEN st # 0 /\ p.sid = 0 ELSE st = 0 <=> p.bad = {}
     /\ (st # 0 /\ ~wrong => st \in p.bad /\ p.sid = 0)
     /\ (st = 0 => Live(c, FALSE) = {p.sid} /\ Quiescent({i \in Mine(c) : ~subs[i].box} \ {p.sid}))
     /\ halted' = [halted EXCEPT ![c] = IF wrong THEN @ ELSE st # 0]
     /\ sync' = [sync EXCEPT ![c] = IF wrong THEN @ ELSE p.y = 1]
     /\ Done(t) /\ UNCHANGED <<subs, q, iq, box, state, used, now>>
RetNewInbox(t, st) ==
  LET p == pend[t]
      c == p.c
  IN /\ st = 0 <=> p.bad = {}
     /\ (st # 0 => st \in p.bad)
     /\ (st = 0 => Live(c, TRUE) = {p.sid} /\ Quiescent({i \in Mine(c) : subs[i].box} \ {p.sid}))
     /\ box' = [box EXCEPT ![c] = p.sid]
     /\ iq' = [iq EXCEPT ![c] = SelectSeq(@, LAMBDA x : x[1] = p.sid)]
     /\ Done(t) /\ UNCHANGED <<subs, q, state, halted, sync, used, now>>
RetTake(t, got) == /\ pend[t].done /\ pend[t].res = got /\ Done(t) /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, now>>
RetPub(t, st) == /\ (IF st = 0 THEN pend[t].done /\ pend[t].bad = {} ELSE ~pend[t].done /\ st \in pend[t].bad)
                 /\ Done(t) /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, now>>
SubjectOf(S, s) == IF S = {} THEN s = 0 ELSE \E i \in S : s = subs[i].s
RetSubject(t, s) == /\ SubjectOf(Live(pend[t].c, FALSE), s) /\ Done(t) /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, now>>
RetInbox(t, s) == /\ SubjectOf(Live(pend[t].c, TRUE), s) /\ Done(t) /\ UNCHANGED <<subs, q, iq, box, state, halted, sync, used, now>>
\* a new connection has no subscriptions
RetConnect(t, st) == LET c == pend[t].c IN
  /\ st = 0 <=> pend[t].bad = {}
  /\ (st # 0 => st \in pend[t].bad)
  /\ Live(c, FALSE) = {} /\ Live(c, TRUE) = {} /\ Quiescent(Mine(c))
  /\ box' = [box EXCEPT ![c] = 0] /\ halted' = [halted EXCEPT ![c] = TRUE]
  /\ Done(t) /\ UNCHANGED <<subs, q, iq, state, sync, used, now>>
RetDestroy(t) == LET c == pend[t].c IN
  /\ \A x \in DOMAIN pend : pend[x] # Idle /\ pend[x].c = c /\ x # t => pend[x].done
  /\ Quiescent(Mine(c)) /\ state' = [state EXCEPT ![c] = "gone"]
  /\ Done(t) /\ UNCHANGED <<subs, q, iq, box, halted, sync, used, now>>

\* Nothing can happen any more by itself: what was routed has been received, and only takers
\* without a time limit wait, for messages that are not there
AtRest ==
  /\ \A i \in 1..Len(subs) : subs[i].live => subs[i].lib = <<>> /\ (subs[i].fl = <<>> \/ subs[i].put)
  /\ \A t \in DOMAIN pend : pend[t] # Idle => pend[t].o \in {"next", "nexti"} /\ pend[t].ms < 0 /\ ~pend[t].done
        /\ (IF pend[t].o = "next" THEN q[pend[t].c] = <<>>
            ELSE \A i \in 1..Len(iq[pend[t].c]) : iq[pend[t].c][i][1] # box[pend[t].c])
=============================================================================
