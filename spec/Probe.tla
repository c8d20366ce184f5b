------------------------------- MODULE Probe --------------------------------
(* Recognition and decoding of foreign, deviating and damaged packets.        *)
(* A packet of a class goes through a random history; then its bytes are held *)
(* against every class of the definition file, and damaged in every way of    *)
(* the catalogue below; for each the specification says whether the class     *)
(* must recognise it and whether its announced contents fit.                  *)
EXTENDS GenPacket

\* the shapes a packet is held against: those of the file of its class
All == JsonDeserialize(IOEnv.SHAPES).shapes
Flip(b, k) == LET i == (k - 1) \div 8 + 1
                  m == P2[7 - ((k - 1) % 8)]
              IN [b EXCEPT ![i] = IF (b[i] \div m) % 2 = 1 THEN b[i] - m ELSE b[i] + m]
B01(x) == IF x THEN 1 ELSE 0
Verdict(s, d) == B01(Recognised(s, d))
\* accepted and readable / accepted but its contents do not fit / not of the class
Fate(s, d) == IF ~Recognised(s, d) THEN 0 ELSE IF CutShort(s, d) THEN 2 ELSE 1
\* the first k words, with the header saying so
Shorter(d, k) == Sub(d, 1, 2) \o BE(k, 2) \o Sub(d, 5, 4 * k - 4)
WithSize(d, k) == Sub(d, 1, 2) \o BE(k, 2) \o SubSeq(d, 5, Len(d))
RndAttr(d) ==   \* several attributes at once: a new header word or class word
  Bind(RandomElement(1..3), LAMBDA w : Bind(RndByte(w), LAMBDA x :
     CASE w = 1 -> [d EXCEPT ![1] = x]
       [] w = 2 -> [d EXCEPT ![2] = x]
       [] OTHER -> IF Len(d) < 16 THEN [d EXCEPT ![1] = x] ELSE [d EXCEPT ![RandomElement(1..16)] = x]))
ProbeOf(s, d) ==
  [o |-> "probe", cls |-> s.cls, data |-> d, own |-> Fate(s, d),
   flips |-> [k \in 1..(8 * FixedLen(s)) |-> IF k \in 17..32 THEN 9 ELSE Verdict(s, Flip(d, k))],
   sizes |-> [i \in 1..(Len(d) \div 4 + 2) |-> Verdict(s, WithSize(d, i - 1))],
   words |-> [k \in 1..(Len(d) \div 4) |-> Fate(s, Shorter(d, k))],
   cuts |-> [k \in 1..Len(d) |-> Verdict(s, SubSeq(d, 1, k - 1))],
   cross |-> [i \in 1..Len(All) |-> <<All[i].cls, Verdict(All[i], d)>>],
   more |-> [i \in 1..12 |-> Bind(RndAttr(d), LAMBDA x : <<x, Verdict(s, x)>>)],
   hurt |-> IF Len(d) <= FixedLen(s) THEN <<>>
            ELSE [i \in 1..24 |-> Bind(RandomElement((PrologueLen(s) + 1)..Len(d)), LAMBDA at :
                    Bind(RandomElement({0, 1, 2, 64, 128, 255, RndByte(at)}), LAMBDA v :
                       <<at, v, Fate(s, [d EXCEPT ![at] = v])>>))]]
ProbeStep == n > 0 /\ n % 6 = 0 /\ \E enc \in {TLCEval(Encode(sh, p))} : Emit(ProbeOf(sh, enc))
             /\ n' = n + 1 /\ UNCHANGED <<sh, p>>
Quiet == n % 6 # 0 /\ \E op \in {TLCEval(GenOp(sh, p, Pick(OpNames(sh))))} : \E q \in {TLCEval(Apply(sh, p, op))} :
              p' = q /\ n' = n + 1 /\ UNCHANGED sh
Begin == n = 0 /\ n' = 1 /\ UNCHANGED <<sh, p>>
PNext == Begin \/ Quiet \/ ProbeStep
PSpec == Init /\ [][PNext]_vars
=============================================================================
