------------------------------ MODULE SysPacket ------------------------------
(* Enumerated histories of packets: every field of a class on its own, in the  *)
(* middle of all others, and (PAIRS) in company of every other; every prologue *)
(* part; payload lengths one after another.  Only the values are drawn.        *)
EXTENDS PacketOps

Shapes == JsonDeserialize(IOEnv.SHAPES).shapes
Pairs == IOEnv.PAIRS = "1"

\* a step: <<operation>> drawn by PacketOps, or <<operation, field number, detail>>
If1(b, s) == IF b THEN s ELSE <<>>
Flat(m, Ap(_)) == Cat([i \in 1..m |-> Ap(i)])
See == <<<<"data">>, <<"obs">>>>
Again == <<<<"rebuild">>, <<"data">>>>
Put1(c, i) == IF c.query THEN <<"enable", i, 1>> ELSE <<"set", i>>
Off1(c, i) == IF c.query THEN <<"enable", i, 0>> ELSE <<"reset", i>>
Alone(c, i) ==
  <<Put1(c, i)>> \o See \o Again
  \o If1(~c.query /\ StructField(c.fields[i]), <<<<"mod", i>>, <<"mod", i>>>> \o See)
  \o Flat(Len(c.at7), LAMBDA j : <<<<"attr", i, j>>>>) \o If1(c.at7 # <<>>, See)
  \o If1(i \in OptI(c), <<Off1(c, i)>> \o See \o Again \o <<Put1(c, i), Put1(c, i), <<"data">>>>
                        \o If1(~c.query /\ StructField(c.fields[i]), <<<<"drop", i>>>> \o See)
                        \o If1(c.vx, <<Put1(c, i), <<"data">>, <<"word", i>>>> \o See))
All1(c) == Flat(Len(c.fields), LAMBDA i : <<Put1(c, i)>>)
\* everything present; then each optional field gone and back again
Amid(c) == All1(c) \o See \o Again \o Flat(Len(c.fields), LAMBDA i : IF i \notin OptI(c) THEN <<Put1(c, i)>> ELSE <<Off1(c, i), <<"data">>, Put1(c, i)>>) \o See \o Again
           \o Flat(Len(c.fields), LAMBDA i : IF i \in OptI(c) THEN <<Off1(c, i), <<"obs">>>> ELSE <<>>) \o See
Company(c, i, j) == <<Put1(c, j), <<"data">>, Put1(c, i), <<"data">>, <<"rebuild">>, <<"obs">>>>
                    \o If1(j \in OptI(c), <<Off1(c, j), <<"data">>, Put1(c, j)>>) \o If1(i \in OptI(c), <<Off1(c, i)>>) \o See
Slots == {"cnt", "pad", "info", "sid", "its", "fts", "tsi", "tsf", "tsm", "mid", "cam", "ctee", "cter", "ci"}
SlotsOf(c) == SetToSeq(Slots \cap Range(OpNames(c)))
Slot(s) == Cat([k \in 1..4 |-> <<<<s>>>> \o See]) \o Again \o <<<<s>>>> \o See
AllSlots(c) == Flat(Len(SlotsOf(c)), LAMBDA k : <<<<SlotsOf(c)[k]>>, <<"data">>>>) \o See \o Again \o Flat(Len(SlotsOf(c)), LAMBDA k : <<<<SlotsOf(c)[k]>>>>) \o See
Lens == <<0, 1, 2, 3, 4, 5, 8, 9, 33>>
Pays(a) == Flat(Len(Lens), LAMBDA k : <<<<"paylen", 0, a>>, <<"data">>, <<"paylen", 0, Lens[k]>>>> \o See \o If1(k = a \div 2 + 1, Again))
TrKeySeq(c) == SetToSeq(TrKeys(c))
Trailers(c) == Flat(Len(TrKeySeq(c)), LAMBDA k : <<<<"trkey", 0, k>>>> \o See \o <<<<"trkey", 0, k>>, <<"data">>>>) \o Again
               \o Flat(Len(TrKeySeq(c)), LAMBDA k : <<<<"trclear", 0, k>>>> \o See)
\* of classes with many fields, every so many of the pairs
Every(c) == (Len(c.fields) * Len(c.fields)) \div 1200 + 1
Chosen(c, a, b) == a # b /\ ((a * 7 + b * 3) % Every(c)) = 0
Scripts(c) ==
  Flat(Len(c.fields), LAMBDA i : <<Alone(c, i)>>)
  \o If1(Len(c.fields) > 1, <<Amid(c)>>)
  \o Flat(Len(SlotsOf(c)), LAMBDA k : <<Slot(SlotsOf(c)[k])>>) \o <<AllSlots(c)>>
  \o If1(c.data, Flat(Len(Lens), LAMBDA k : <<Pays(Lens[k])>>))
  \o If1(c.trailer, <<Trailers(c), <<<<"paylen", 0, 6>>>> \o Trailers(c)>>)
  \o If1(Pairs, Flat(Len(c.fields), LAMBDA i : Flat(Len(c.fields), LAMBDA j : IF Chosen(c, i, j) THEN <<Company(c, i, j)>> ELSE <<>>)))

WordName == <<"wif_0", "wif_1", "wif_2", "eif_0", "eif_1", "eif_2">>
OpOf(c, st, t) ==
  CASE t[1] = "set" -> [o |-> "set", i |-> t[2], k |-> c.fields[t[2]].k, v |-> RndT(c.fields[t[2]].ty)]
    [] t[1] = "enable" -> [o |-> "enable", i |-> t[2], k |-> c.fields[t[2]].k, v |-> t[3]]
    [] t[1] = "mod" -> IF ~On(st, t[2]) THEN Skip ELSE [o |-> "mod", i |-> t[2], k |-> c.fields[t[2]].k, v |-> Mix(st.fv[t[2]][1], RndT(c.fields[t[2]].ty))]
    [] t[1] = "attr" -> [o |-> "attr", i |-> t[2], j |-> t[3], k |-> c.fields[t[2]].k \o ":" \o c.at7[t[3]].k, v |-> RndT(AtTy(c, t[2], t[3]))]
    [] t[1] = "reset" -> [o |-> "reset", i |-> t[2], k |-> c.fields[t[2]].k]
    [] t[1] = "drop" -> [o |-> "drop", i |-> t[2], k |-> c.fields[t[2]].k]
    [] t[1] = "word" -> LET g == c.fields[t[2]].g IN [o |-> "resetword", k |-> WordName[g], gs |-> IF g \in {1, 4} THEN {g, g + 1, g + 2} ELSE {g}]
    [] t[1] = "paylen" -> [o |-> "pay", v |-> [x \in 1..t[3] |-> RndByte(x)]]
    [] t[1] = "trkey" -> Bind(RndMember(TrMem(c, TrKeySeq(c)[t[3]])), LAMBDA v : IF v = <<>> THEN Skip ELSE [o |-> "tr", k |-> TrKeySeq(c)[t[3]], v |-> v])
    [] t[1] = "trclear" -> IF TrKeySeq(c)[t[3]] \in NoReset \/ TrMem(c, TrKeySeq(c)[t[3]]).en < 0 THEN Skip ELSE [o |-> "tr", k |-> TrKeySeq(c)[t[3]], v |-> <<>>]
    [] OTHER -> GenOp(c, st, t[1])

\* sh: the class; s: its scripts; i, n: where we are; p: the packet
VARIABLES q, sh, s, i, n, p
vars == <<q, sh, s, i, n, p>>
Init == q = 0 /\ sh = <<>> /\ s = <<>> /\ i = 0 /\ n = 0 /\ p = <<>>
NextClass == /\ i = Len(s) /\ n = 0 /\ q < Len(Shapes)
             /\ q' = q + 1 /\ sh' = Shapes[q + 1] /\ s' = Scripts(sh') /\ i' = 0 /\ n' = 0 /\ p' = <<>>
Start == /\ i < Len(s) /\ n = 0
         /\ i' = i + 1 /\ n' = 1 /\ p' = Init0(sh)
         /\ Emit([o |-> "start", cls |-> sh.cls, data |-> Encode(sh, p'), obs |-> Observe(sh, p')])
         /\ UNCHANGED <<q, sh, s>>
Step == /\ n > 0
        /\ \E op \in {TLCEval(OpOf(sh, p, s[i][n]))} : \E r \in {TLCEval(Apply(sh, p, op))} :
              /\ p' = r
              /\ CASE op.o = "data" -> \E enc \in {TLCEval(Encode(sh, r))} :
                                         /\ Assert(RoundTripE(sh, r, enc), <<"spec round trip", sh.cls, RoundTripDiff(sh, r, enc)>>)
                                         /\ Assert(SizeOkE(enc), <<"spec size", r>>)
                                         /\ Assert(sh.vx \/ Recognised(sh, enc), <<"spec recognition", sh.cls>>)
                                         /\ Emit(op @@ [data |-> enc])
                   [] op.o = "rebuild" -> \E enc \in {TLCEval(Encode(sh, r))} : Emit(op @@ [data |-> enc, obs |-> Observe(sh, r), match |-> IF Recognised(sh, enc) THEN 1 ELSE 0])
                   [] op.o = "obs" -> Emit(op @@ [obs |-> Observe(sh, r)])
                   [] OTHER -> Emit(op)
        /\ n' = IF n = Len(s[i]) THEN 0 ELSE n + 1
        /\ UNCHANGED <<q, sh, s, i>>
Next == NextClass \/ Start \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
