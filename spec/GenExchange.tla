----------------------------- MODULE GenExchange -----------------------------
(* Histories of a Controllee, a Controller or a Controller's data/context      *)
(* receiver (ROLE), printed with what the specification says about each step.  *)
EXTENDS Exchange
Role == IOEnv.ROLE

VARIABLES
  n,        \* steps taken
  k,        \* handler calls made (controllee)
  mid,      \* identifier of the next command (controller)
  cid,      \* the controller's identifier
  q,        \* messages on their way to the controller / datagrams not yet received
  dead,     \* the connection is not usable any more
  on, lis,  \* receiving; listener of each data/context class: 0 none, tag, -tag: one that turns receiving off
  last      \* what the last step did: the commands taken and what was answered
vars == <<n, k, mid, cid, q, dead, on, lis, last>>

Rnd(a, b) == RandomElement(a..b)
One(x) == RandomElement(1..x) = 1
Nothing == [cmds |-> <<>>, calls |-> <<>>, acks |-> <<>>]

\* --- messages ---------------------------------------------------------------------
\* a random packet of command x, with a random choice among the requests it leaves open
RndCommand(x) ==
  Bind(Walk(Cm(x), Init0(Cm(x)), Rnd(0, 5)), LAMBDA w : Bind(RndRaw(4), LAMBDA m : Bind([y \in CamNames |-> Rnd(0, 1)], LAMBDA r :
     [w EXCEPT !.mid = m, !.cam = [y \in CamNames |-> IF y \in {"v","x","s"} /\ y \in Range(Cm(x).camset) THEN r[y] ELSE @[y]],
               !.cnt = Rnd(0, 15)])))
Flip(b, i) == LET at == (i - 1) \div 8 + 1
                  m == P2[7 - ((i - 1) % 8)]
              IN [b EXCEPT ![at] = IF (b[at] \div m) % 2 = 1 THEN b[at] - m ELSE b[at] + m]
RndOther(z) == Bind(RandomElement(1..Len(S)), LAMBDA i : Bind(Walk(S[i], Init0(S[i]), Rnd(0, 4)), LAMBDA w : Encode(S[i], w)))
\* a message that is no command, or a well-formed one; framed: its header tells its length
RndForeign(z, framed) ==
  Bind(RandomElement(1..6), LAMBDA c :
   Bind(RndCommand(Pick(Cmds)), LAMBDA w0 : Bind(Pick(Cmds), LAMBDA x : Bind(RndCommand(x), LAMBDA w :
    Bind(Encode(Cm(x), w), LAMBDA b :
     Bind(CASE c = 1 -> RndOther(z)
            [] c \in {2, 3} -> Bind(Rnd(1, 8 * FixedLen(Cm(x))), LAMBDA i : IF framed /\ i \in 17..32 THEN Flip(b, i - 16) ELSE Flip(b, i))
            [] c = 4 /\ ~framed -> SubSeq(b, 1, Rnd(0, Len(b) - 1))
            [] c = 5 /\ ~framed -> Bind(Rnd(0, 40), LAMBDA l : [i \in 1..l |-> RndByte(i)])
            [] OTHER -> LET i == RandomElement(Range(DataCls)) IN Bind(Walk(S[i], Init0(S[i]), 3), LAMBDA d : Encode(S[i], d)),
       LAMBDA y :
        \* one flipped bit can announce contents that are not there; such messages are left to Probe
        IF TakenBy(y) = {} \/ \E i \in TakenBy(y) : WellFormed(Cm(Cmds[i]), y) THEN y
        ELSE Bind(RandomElement(Range(DataCls)), LAMBDA i : Encode(S[i], Init0(S[i])))))))))
RndMessage(framed) ==
  IF One(3) THEN RndForeign(1, framed) ELSE Bind(Pick(Cmds), LAMBDA x : Bind(RndCommand(x), LAMBDA w : Encode(Cm(x), w)))

\* --- controllee -------------------------------------------------------------------
RECURSIVE RespondAll(_, _)
\* <<calls, acks>> of a sequence of messages; acks tagged with the message's position
RespondAll(ms, c) ==
  IF ms = <<>> THEN <<<<>>, <<>>>>
  ELSE Bind(Respond(Head(ms), c), LAMBDA r : Bind(RespondAll(Tail(ms), c + Len(r[1])), LAMBDA t : <<r[1] \o t[1], <<r[2]>> \o t[2]>>))
Cuts(total) == \* lengths of the pieces a stream arrives in
  LET RECURSIVE cut(_)
      cut(left) == IF left = 0 THEN <<>> ELSE Bind(IF One(3) THEN left ELSE Rnd(1, IF left > 40 THEN 40 ELSE left), LAMBDA a : <<a>> \o cut(left - a))
  IN cut(total)
\* the segments of a stream of messages; few of them, as each costs a pause
CutsOf(b) == IF One(2) THEN <<Len(b)>> ELSE Bind(Cuts(Len(b)), LAMBDA c : IF Len(c) > 6 THEN SubSeq(c, 1, 5) \o <<FoldSeq(LAMBDA a, s : a + s, 0, SubSeq(c, 6, Len(c)))>> ELSE c)

Commands(ms) == SelectSeq(ms, LAMBDA m : TakenBy(m) # {})
EeStep ==
  \E cnt \in {IF Via = "tcp" THEN Rnd(1, 4) ELSE 1} :
  \E ms \in {TLCEval([i \in 1..cnt |-> RndMessage(Via = "tcp")])} : \E r \in {TLCEval(RespondAll(ms, k))} :
    /\ k' = k + Len(r[1])
    /\ last' = [cmds |-> Commands(ms), calls |-> r[1], acks |-> Cat(r[2])]
    /\ \E from \in {IF Via = "nats" THEN Rnd(0, 2) ELSE Rnd(1, 2)} :
         Emit([o |-> "msg", data |-> Cat(ms), from |-> from, segs |-> IF Via = "tcp" THEN CutsOf(Cat(ms)) ELSE <<>>,
               calls |-> r[1], acks |-> IF from = 0 THEN <<>> ELSE Cat(r[2]), sync |-> Rnd(0, 1)])
    /\ UNCHANGED <<mid, cid, q, dead, on, lis>>
\* the connection ends in the middle of a packet
EeEnd ==
  /\ Bind(Pick(Cmds), LAMBDA x : Bind(RndCommand(x), LAMBDA w : Bind(Encode(Cm(x), w), LAMBDA b :
       Emit([o |-> "msg", data |-> SubSeq(b, 1, Rnd(1, Len(b) - 1)), from |-> 1, segs |-> <<>>, calls |-> <<>>, acks |-> <<>>, sync |-> 0]))))
  /\ last' = Nothing /\ dead' = TRUE /\ UNCHANGED <<k, mid, cid, q, on, lis>>

\* --- controller -------------------------------------------------------------------
MidBytes(i) == BE(i, 4)
\* a correct answer of the given kind
RndAnswer(x, kind, m, w) ==
  LET c == AckShape(x, kind)
  IN Bind(Walk(c, Init0(c), Rnd(0, 4)), LAMBDA a :
       Encode(c, [a EXCEPT !.sid = w.sid, !.mid = m, !.ctee = w.ctee, !.cter = w.cter,
                           !.cam = [y \in CamNames |-> IF y = kind THEN 1 ELSE IF y \in {"v","x","s"} THEN 0 ELSE @[y]]]))
Acking(z) == SelectSeq(Cmds, HasAck)
AckKinds(x) == (IF x.vx > 0 THEN SelectSeq(<<"v","x">>, LAMBDA y : Offers(x, y)) ELSE <<>>) \o (IF x.s > 0 THEN <<"s">> ELSE <<>>)
\* any acknowledgement to command identifier m
RndAckTo(m) == Bind(Pick(Acking(m)), LAMBDA x : Bind(Pick(AckKinds(x)), LAMBDA kd : Bind(RndCommand(x), LAMBDA w : RndAnswer(x, kd, m, w))))
OldMid(z) == IF mid > 1 /\ ~One(4) THEN MidBytes(Rnd(1, mid - 1)) ELSE Bind(RndRaw(4), LAMBDA b : [b EXCEPT ![1] = 255])
Stale(z) == RndAckTo(OldMid(z))
\* messages with some late ones put in between
Mixed(ms) ==
  Cat([i \in 1..Len(ms) |-> (IF One(4) THEN <<Stale(i)>> ELSE <<>>) \o <<ms[i]>>])
\* what the peer answers: the right acknowledgements, or some deviation from them
\* <<messages, closes the connection afterwards, incomplete bytes afterwards>>
Plan(x, w, m) ==
  LET want == Wanted(x, w)
      right == TLCEval([i \in 1..Len(want) |-> RndAnswer(x, want[i], m, w)])
      ln == Len(want)
  IN Bind(right, LAMBDA rt : Bind(RandomElement(1..24), LAMBDA c : Bind(IF ln = 0 THEN 0 ELSE Rnd(1, ln), LAMBDA i :
     CASE ln = 0 -> <<IF One(3) THEN <<Stale(1)>> ELSE <<>>, FALSE, <<>>>>
       [] c = 1 -> <<Mixed(SubSeq(rt, 1, i - 1)), FALSE, <<>>>>                                   \* some missing at the end
       [] c = 2 /\ ln > 1 -> <<Mixed(SubSeq(rt, 1, i - 1) \o SubSeq(rt, i + 1, ln)), FALSE, <<>>>>  \* one left out
       [] c = 3 /\ ln > 1 -> <<Mixed(Reverse(rt)), FALSE, <<>>>>
       [] c \in {4, 5} -> <<Mixed(SubSeq(rt, 1, i - 1) \o <<RndAckTo(m)>>), FALSE, <<>>>>         \* of any kind, perhaps the right one
       [] c = 6 -> <<Mixed(SubSeq(rt, 1, i - 1) \o <<RndForeign(1, TRUE)>>), FALSE, <<>>>>
       [] c = 7 /\ Via # "tcp" -> <<SubSeq(rt, 1, i - 1) \o <<SubSeq(rt[i], 1, Rnd(0, Len(rt[i]) - 1))>>, FALSE, <<>>>>
       [] c = 7 -> <<Mixed(SubSeq(rt, 1, i - 1)), TRUE, <<>>>>
       [] c = 8 /\ Via = "tcp" -> <<SubSeq(rt, 1, i - 1), FALSE, SubSeq(rt[i], 1, Rnd(1, Len(rt[i]) - 1))>>
       [] c = 9 -> <<Mixed(rt) \o <<rt[i]>>, FALSE, <<>>>>                                          \* one twice, at the end
       [] c = 10 /\ ln > 1 -> <<Mixed(SubSeq(rt, 1, i) \o SubSeq(rt, i, ln)), FALSE, <<>>>>
       [] c = 11 -> <<Mixed(rt) \o <<Stale(2)>>, FALSE, <<>>>>
       [] OTHER -> <<Mixed(rt), FALSE, <<>>>>)))

\* what is left over for later commands must be late answers: what a later call makes of
\* anything else is not said
Clean(left) == \A i \in 1..Len(left) : AnyMid(left[i]) # <<>>
ErCall ==
  /\ ~dead
  /\ \E x \in {Pick(Cmds)} : \E w0 \in {TLCEval(RndCommand(x))} :
     \E m \in {MidBytes(mid)} : \E w \in {TLCEval([w0 EXCEPT !.mid = m, !.cter = IF Cm(x).cter # "" THEN cid ELSE @])} :
     \E pl \in {TLCEval(Plan(x, w, m))} : \E res \in {TLCEval(Collect(x, Wanted(x, w), m, q \o pl[1]))} :
       \* a deviation whose leftovers would disturb later calls ends the history
       \E over \in {pl[2] \/ pl[3] # <<>> \/ ~Clean(res[3]) \/ (Via = "tcp" /\ ~res[1] /\ Wanted(x, w) = <<>>)} :
       /\ Emit([o |-> "call", cls |-> Cm(x).cls, give |-> Encode(Cm(x), w0), wire |-> Encode(Cm(x), w),
                replies |-> pl[1], part |-> pl[3], close |-> pl[2], segs |-> IF Via = "tcp" /\ pl[1] # <<>> THEN CutsOf(Cat(pl[1])) ELSE <<>>,
                ok |-> res[1], want |-> Wanted(x, w), acks |-> IF res[1] THEN res[2] ELSE <<>>])
       /\ mid' = mid + 1 /\ q' = res[3] /\ dead' = over
       /\ last' = [cmds |-> <<Encode(Cm(x), w)>>, calls |-> Wanted(x, w), acks |-> IF res[1] THEN res[2] ELSE <<>>, ok |-> res[1]]
       /\ UNCHANGED <<k, cid, on, lis>>
CterFmt == LET fs == {Cm(Cmds[i]).cter : i \in 1..Len(Cmds)} IN CHOOSE f \in fs : TRUE
ErId ==
  /\ CterFmt # "" /\ \E v \in {TLCEval(RndRaw(IdSize(CterFmt)))} : cid' = v /\ Emit([o |-> "id", v |-> v])
  /\ last' = Nothing /\ UNCHANGED <<k, mid, q, dead, on, lis>>

\* --- receiver ---------------------------------------------------------------------
FlushI == CHOOSE i \in Range(DataCls) : S[i].cls = "Flush"
RndDatagram(z) ==
  IF One(5) THEN RndForeign(z, FALSE)
  ELSE Bind(Pick(DataCls), LAMBDA i : Bind(Walk(S[i], Init0(S[i]), Rnd(0, 8)), LAMBDA w : Encode(S[i], w)))
\* a cut or flipped packet announcing contents it does not have is not used here
Usable(b) == \A i \in Range(DataCls) : Recognised(S[i], b) => WellFormed(S[i], b)
Plain(z) == Bind(RndDatagram(z), LAMBDA b : IF Usable(b) THEN b ELSE Encode(S[FlushI], Init0(S[FlushI])))
FlushPacket(z) == Bind(Walk(S[FlushI], Init0(S[FlushI]), 3), LAMBDA w : Encode(S[FlushI], w))
\* the listener calls the datagrams ds give rise to when receiving starts with listeners l;
\* a listener that turns receiving off leaves the rest waiting. <<calls, left, still receiving>>
RECURSIVE Dispatch(_, _)
Dispatch(ds, l) ==
  IF ds = <<>> THEN <<<<>>, <<>>, TRUE>>
  ELSE LET hit == SelectSeq(PacketsOf(Head(ds)), LAMBDA i : l[i] # 0)
           calls == [j \in 1..Len(hit) |-> [tag |-> l[hit[j]], cls |-> S[hit[j]].cls, data |-> Head(ds)]]
       IN IF \E j \in 1..Len(hit) : l[hit[j]] < 0 THEN <<calls, Tail(ds), FALSE>>
          ELSE Bind(Dispatch(Tail(ds), l), LAMBDA r : <<calls \o r[1], r[2], r[3]>>)
Idle == [i \in 1..Len(S) |-> IF i = FlushI THEN 9999 ELSE 0]
Deliver(ds, was) ==
  \E r \in {TLCEval(IF was THEN Dispatch(ds, lis) ELSE <<<<>>, ds, FALSE>>)} : q' = r[2] /\ on' = r[3] /\ last' = [Nothing EXCEPT !.calls = r[1]]
RxArrive ==
  \E ds \in {TLCEval(Bind(Rnd(1, 4), LAMBDA c : [i \in 1..c |-> Plain(i)]) \o <<FlushPacket(1)>>)} :
    /\ Len(q) < 40
    /\ Deliver(q \o ds, on)
    /\ Emit([o |-> "arrive", data |-> ds, calls |-> last'.calls, on |-> on']) /\ UNCHANGED <<k, mid, cid, dead, lis>>
RxEnable == Deliver(q, TRUE) /\ Emit([o |-> "enable", calls |-> last'.calls, on |-> on']) /\ UNCHANGED <<k, mid, cid, dead, lis>>
RxDisable == on' = FALSE /\ last' = Nothing /\ Emit([o |-> "disable", calls |-> <<>>, on |-> FALSE]) /\ UNCHANGED <<k, mid, cid, dead, lis, q>>
RxRegister ==
  \E i \in {RandomElement(Range(DataCls) \ {FlushI})} : \E t \in {CASE One(4) -> 0 [] One(6) -> -n [] OTHER -> n} :
    lis' = [lis EXCEPT ![i] = t] /\ last' = Nothing
    /\ Emit([o |-> "register", cls |-> S[i].cls, tag |-> t, calls |-> <<>>, on |-> on]) /\ UNCHANGED <<k, mid, cid, dead, q, on>>
RxRenew == lis' = Idle /\ q' = <<>> /\ on' = FALSE /\ last' = Nothing /\ Emit([o |-> "renew", calls |-> <<>>, on |-> FALSE]) /\ UNCHANGED <<k, mid, cid, dead>>
RxSend == \E i \in {RandomElement(Range(DataCls))} : \E b \in {TLCEval(Bind(Walk(S[i], Init0(S[i]), Rnd(0, 6)), LAMBDA w : Encode(S[i], w)))} :
    Emit([o |-> "send", cls |-> S[i].cls, data |-> b, calls |-> <<>>, on |-> on]) /\ last' = Nothing /\ UNCHANGED <<k, mid, cid, dead, q, on, lis>>
\* datagrams arriving while receiving is turned on and off at any moment: none is lost, none
\* comes twice; with end, the controller is destroyed at some point instead and the calls made
\* are the first ones
RxStorm ==
  /\ \A i \in Range(DataCls) : lis[i] >= 0
  /\ \E ds \in {TLCEval([i \in 1..Rnd(10, 20) |-> Plain(i)] \o <<FlushPacket(1)>>)} : \E end \in {One(4)} :
     \E r \in {TLCEval(Dispatch(q \o ds, lis))} :
       /\ q' = <<>> /\ on' = ~end /\ lis' = (IF end THEN Idle ELSE lis) /\ last' = Nothing
       /\ Emit([o |-> "storm", data |-> ds, turns |-> Rnd(1, 4), destroy |-> end, calls |-> r[1], on |-> ~end])
       /\ UNCHANGED <<k, mid, cid, dead>>

\* --- behaviours -------------------------------------------------------------------
Init == /\ n = 0 /\ k = 0 /\ mid = 1 /\ cid = Zeros(IdSize(CterFmt)) /\ q = <<>> /\ dead = FALSE /\ on = FALSE
        /\ lis = Idle /\ last = Nothing
Begin == n = 0 /\ Emit([o |-> "start", role |-> Role]) /\ UNCHANGED <<k, mid, cid, q, dead, on, lis, last>>
Step == n > 0 /\ ~dead /\
  CASE Role = "controllee" -> (IF Via = "tcp" /\ n > 3 /\ One(30) THEN EeEnd ELSE EeStep)
    [] Role = "controller" -> (IF One(6) /\ CterFmt # "" THEN ErId ELSE ErCall)
    [] OTHER -> \E c \in {Rnd(1, 16)} :
                  CASE c \in 1..6 -> RxArrive [] c \in 7..8 -> RxEnable [] c = 9 -> RxDisable [] c \in 10..12 -> RxRegister
                    [] c = 13 -> RxRenew [] c = 14 -> (IF \A i \in Range(DataCls) : lis[i] >= 0 THEN RxStorm ELSE RxDisable) [] OTHER -> RxSend
Next == (Begin \/ Step) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

\* --- what the answers and results are worth -----------------------------------------
\* Each acknowledgement is recognisable as one of a command just received, which asked for its
\* kind, and says so with the same identifiers; no command has two of a kind
AnswerOf(a, cmdb) == \E i \in 1..Len(Cmds) : LET x == Cmds[i] IN
   /\ i \in TakenBy(cmdb)
   /\ \E kd \in Range(AckKinds(x)) : LET c == AckShape(x, kd) IN
        /\ Answers(x, kd, a) /\ LET d == Decode(c, a)
                                   w == Decode(Cm(x), cmdb)
                               IN d.mid = w.mid /\ d.sid = w.sid /\ d.ctee = w.ctee /\ d.cter = w.cter /\ Asks(x, w, kd)
EachAnswers == Role = "controllee" => \A j \in 1..Len(last.acks) : \E i \in 1..Len(last.cmds) : AnswerOf(last.acks[j], last.cmds[i])
AllAnswered == Role = "controllee" =>
   Len(last.acks) = FoldSeq(LAMBDA b, s : s + LET x == Cmds[CHOOSE i \in TakenBy(b) : TRUE] IN Len(Wanted(x, Decode(Cm(x), b))), 0, last.cmds)
OneExecution == Role = "controllee" => \A j \in 1..Len(last.cmds) :
   Cardinality({i \in 1..Len(last.calls) : last.calls[i].h = "x" /\ last.calls[i].data = last.cmds[j]})
     <= Cardinality({i \in 1..Len(last.cmds) : last.cmds[i] = last.cmds[j]})
\* what a call returns are the command's own answers, one of each kind asked for
OwnAnswers == (Role = "controller" /\ last.acks # <<>>) =>
   /\ Len(last.acks) = Len(last.calls)
   /\ \A j \in 1..Len(last.acks) : AnyMid(last.acks[j]) = AnyMid(last.cmds[1]) /\ AnyMid(last.acks[j]) = MidBytes(mid - 1)
=============================================================================
