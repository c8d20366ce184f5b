------------------------------ MODULE GenPacket ------------------------------
(* Behaviours of Packet for replay into the generated classes. Simulation     *)
(* mode: each step draws one enabled operation at random and prints it with    *)
(* the bytes / observation the specification expects.                          *)
EXTENDS PacketOps

\* sh: the shape of the packet's class (never changes); p: the packet; n: steps taken
VARIABLES sh, p, n
vars == <<sh, p, n>>

Init == /\ sh \in Range(JsonDeserialize(IOEnv.SHAPES).shapes)
        /\ p = Init0(sh)
        /\ n = 0
Start == /\ n = 0
         /\ Emit([o |-> "start", cls |-> sh.cls, data |-> Encode(sh, p), obs |-> Observe(sh, p)])
         /\ n' = 1 /\ UNCHANGED <<sh, p>>
Checked(q, enc) ==
  /\ Assert(RoundTripE(sh, q, enc), <<"spec round trip", sh.cls, RoundTripDiff(sh, q, enc)>>)
  /\ Assert(SizeOkE(enc), <<"spec size", q>>)
Step == /\ n > 0
        /\ \E op \in {TLCEval(GenOp(sh, p, Pick(OpNames(sh))))} : \E q \in {TLCEval(Apply(sh, p, op))} :
              /\ p' = q
              /\ CASE op.o = "data" -> \E enc \in {TLCEval(Encode(sh, q))} : Checked(q, enc) /\ Emit(op @@ [data |-> enc])
                   [] op.o = "rebuild" -> \E enc \in {TLCEval(Encode(sh, q))} : Emit(op @@ [data |-> enc, obs |-> Observe(sh, q), match |-> IF Recognised(sh, enc) THEN 1 ELSE 0])
                   [] op.o = "obs" -> Emit(op @@ [obs |-> Observe(sh, q)])
                   [] OTHER -> Emit(op)
        /\ n' = n + 1 /\ UNCHANGED sh
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
