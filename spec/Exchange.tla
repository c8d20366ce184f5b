------------------------------ MODULE Exchange ------------------------------
(* The generated Controller and Controllee of one information class.           *)
(*                                                                            *)
(* A system is the file's shapes, its commands - indices of the control class  *)
(* and of its two acknowledgement classes, 0 where there is none - and its     *)
(* data and context classes.                                                   *)
EXTENDS PacketOps

Cfg == JsonDeserialize(IOEnv.SHAPES)
S == Cfg.shapes
Cmds == Cfg.cmds
DataCls == Cfg.data
Via == IOEnv.VIA        \* udp | tcp | nats

Cm(x) == S[x.c]
HasAck(x) == x.vx > 0 \/ x.s > 0
\* kinds the class leaves room for: fixed on or settable
Offers(x, k) == Cm(x).cam[k] = 1 \/ k \in Range(Cm(x).camset)
\* what packet q of the class asks for
Asks(x, q, k) == q.cam[k] = 1 /\ Offers(x, k)
Kinds == <<"v", "x", "s">>
\* acknowledgements a command calls for, in the order they are sent
Wanted(x, q) == IF ~HasAck(x) THEN <<>> ELSE SelectSeq(Kinds, LAMBDA k : Asks(x, q, k))
AckShape(x, kind) == IF kind = "s" THEN S[x.s] ELSE S[x.vx]

\* the well-formed packets of class c: exactly what some packet of the class encodes to
WellFormed(c, b) == Recognised(c, b) /\ ~CutShort(c, b) /\ Bind(Decode(c, b), LAMBDA q : Encode(c, q) = b)

\* --- controllee -----------------------------------------------------------------
\* Handlers called for command q: validation when asked for; execution when execution
\* or state is asked for and the class has a state acknowledgement to fill
Handlers(x, q) ==
  (IF HasAck(x) /\ Asks(x, q, "v") THEN <<"v">> ELSE <<>>)
  \o (IF Asks(x, q, "x") \/ (HasAck(x) /\ Asks(x, q, "s")) THEN <<"x">> ELSE <<>>)

\* what the k-th handler call of the harness returns: a new acknowledgement with these set
HandlerAck(c, k) ==
  LET p0 == Init0(c)
      set(p, m, v) == IF m \in Range(c.camset) THEN [p EXCEPT !.cam[m] = v] ELSE p
  IN set(set(set(p0, "timing_control", k % 5), "partial_action", (k \div 2) % 2), "scheduled_or_executed", (k \div 4) % 2)
\* ... identified as the answer of the given kind to q
Stamp(c, kind, a, q) ==
  [a EXCEPT !.sid = q.sid, !.mid = q.mid, !.ctee = q.ctee, !.cter = q.cter, !.cam[kind] = 1]
\* acknowledgements sent for q, k handler calls having been made before it
Acks(x, q, k) ==
  LET w == Wanted(x, q)
      vcalls == IF HasAck(x) /\ Asks(x, q, "v") THEN 1 ELSE 0
      callOf(kind) == IF kind = "v" THEN k + 1 ELSE k + vcalls + 1
  IN [i \in 1..Len(w) |-> Encode(AckShape(x, w[i]), Stamp(AckShape(x, w[i]), w[i], HandlerAck(AckShape(x, w[i]), callOf(w[i])), q))]

\* A message is a packet of at most one command class; everything else is passed over.
TakenBy(b) == {i \in 1..Len(Cmds) : Recognised(Cm(Cmds[i]), b)}
\* <<handler calls, acknowledgements>> of a message
Respond(b, k) ==
  IF TakenBy(b) = {} THEN <<<<>>, <<>>>>
  ELSE LET x == Cmds[CHOOSE i \in TakenBy(b) : TRUE]
       IN Bind(Decode(Cm(x), b), LAMBDA q :
            <<[i \in 1..Len(Handlers(x, q)) |-> [h |-> Handlers(x, q)[i], cls |-> Cm(x).cls, data |-> b]], Acks(x, q, k)>>)

\* --- controller -----------------------------------------------------------------
\* where a command packet carries its message identifier, for any packet: <<>> when it is no
\* command packet or ends before it
AnyMid(b) ==
  IF Len(b) < 4 THEN <<>>
  ELSE LET h == Sub(b, 1, 4)
           at == 8 + (IF BitOf(h, 27) THEN 8 ELSE 0) + (IF Extract(h, 23, 2) # 0 THEN 4 ELSE 0)
                   + (IF Extract(h, 21, 2) # 0 THEN 8 ELSE 0) + 4
       IN IF Extract(h, 31, 4) \notin {6, 7} \/ Len(b) < at + 4 THEN <<>> ELSE Sub(b, at + 1, 4)
\* is message b the acknowledgement of this kind to command x with identifier mid
Answers(x, kind, b) == Recognised(AckShape(x, kind), b) /\ ~CutShort(AckShape(x, kind), b)
                       /\ BitOf(Sub(b, CamAt(AckShape(x, kind)), 4), CamPos(kind).hi)
\* Taking the wanted kinds from the messages queued: late answers to other commands are passed
\* over; anything else that is not the next wanted acknowledgement makes the call fail, and so
\* does running out of messages. <<ok, acknowledgements, messages left>>
RECURSIVE Collect(_, _, _, _)
Collect(x, want, mid, q) ==
  IF want = <<>> THEN <<TRUE, <<>>, q>>
  ELSE IF q = <<>> THEN <<FALSE, <<>>, q>>
  ELSE LET b == Head(q)
       IN IF AnyMid(b) # <<>> /\ AnyMid(b) # mid THEN Collect(x, want, mid, Tail(q))
          ELSE IF ~Answers(x, Head(want), b) THEN <<FALSE, <<>>, Tail(q)>>
          ELSE Bind(Collect(x, Tail(want), mid, Tail(q)), LAMBDA r : <<r[1], <<b>> \o r[2], r[3]>>)

\* --- receiver --------------------------------------------------------------------
\* data and context classes a datagram is a packet of
PacketsOf(b) == SelectSeq(DataCls, LAMBDA i : Recognised(S[i], b) /\ ~CutShort(S[i], b))
=============================================================================
