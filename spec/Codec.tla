------------------------------- MODULE Codec -------------------------------
(* One object of a header-library class: a packed word, an identifier or a  *)
(* structured field.  The state is the bytes the object is made of; writing *)
(* a member changes the bits of that member and nothing else, whatever is   *)
(* written, and loading bytes makes the object those bytes.                 *)
(* Behaviours are printed for replay into the real classes (lib/codec.py).  *)
EXTENDS CodecTable, Json, IOUtils

\* --- reading and writing a member of the bytes b ----------------------------
PutBits(w, v, hi, n) == [k \in 1..4 |->
    w[k] - MemberByte(Extract(w, hi, n), hi, n, k) + MemberByte(v % P2[n], hi, n, k)]
Splice(b, off, x) == SubSeq(b, 1, off) \o x \o SubSeq(b, off + Len(x) + 1, Len(b))
WordAt(b, m) == Sub(b, m.off + 1, 4)
Write(b, m, v) ==       \* v as in Structs: <<n>>, <<>> (clear a pair) or bytes
  IF m.k = "r" THEN Splice(b, m.off, v)
  ELSE LET w == WordAt(b, m)
           x == PutBits(w, IF v = <<>> THEN 0 ELSE v[1] - m.b + (IF m.b = 1 THEN P2[m.n] ELSE 0), m.hi, m.n)
       IN Splice(b, m.off, IF m.k = "w" THEN x ELSE PutBits(x, IF v = <<>> THEN 0 ELSE P2[m.enn] - 1, m.en, m.enn))
Read(b, m) == IF m.k = "r" THEN Sub(b, m.off + 1, m.n) ELSE DecMember(m, WordAt(b, m))
ReadAll(b, ms) == [x \in {ms[i].m : i \in 1..Len(ms)} |-> LET m == ms[CHOOSE i \in 1..Len(ms) : ms[i].m = x] IN Read(b, m)]

\* --- the object --------------------------------------------------------------
VARIABLES c, ms, b, val, n, last
vars == <<c, ms, b, val, n, last>>
Ty == TyOf(c)
Bytes_ == IF IsVar(c) THEN EncT(Ty, val) ELSE b
Obs_ == IF IsVar(c) THEN Canon(c.t, val) ELSE ReadAll(b, ms)

Rec(r) == PrintT("@" \o ToJson(r))
Zero0(x) == IF x.t = "sss" THEN ZeroParts(x.ps) ELSE ZeroT(TyOf(x))
RndV(x) == IF x.t = "sss"
           THEN [Bind(RndParts(x.ps), LAMBDA v : v) EXCEPT !["records"] = RndList(8, RndLen(0))]
           ELSE RndT(TyOf(x))
Zero(x) == IF x.t = "" THEN Zeros(FixedSize(x.ps)) ELSE EncT(TyOf(x), Zero0(x))

Init == c = Classes[1] /\ ms = <<>> /\ b = <<>> /\ val = EmptyVal /\ n = 0 /\ last = [o |-> "init"]
\* the behaviour is that of one object of one class
Start == /\ n = 0 /\ n' = 1
         /\ \E i \in {RandomElement(1..Len(Classes))} :
              /\ c' = Classes[i] /\ ms' = Members(Classes[i])
              /\ b' = IF IsVar(Classes[i]) THEN <<>> ELSE Zero(Classes[i])
              /\ val' = IF IsVar(Classes[i]) THEN Zero0(Classes[i]) ELSE EmptyVal
         /\ last' = [o |-> "start"]
         /\ Rec([o |-> "start", cls |-> c'.name, data |-> Bytes_', obs |-> Obs_'])
Emit(o, m, v) == Rec([o |-> o, k |-> m, v |-> v, data |-> Bytes_', obs |-> Obs_'])
\* a member written with a value, possibly wider than the member
Wide(m) == ~(m.m \in Enums) /\ m.n > 1 /\ m.b = 0
RndFor(m) ==
  CASE m.k = "r" -> IF m.rx >= 0 THEN RndFx(m.n) ELSE RndRaw(m.n)
    [] OTHER -> IF Wide(m) /\ RandomElement(1..3) = 1 THEN <<RandomElement(0..(P2[IF m.n < 8 THEN 8 ELSE IF m.n < 16 THEN 16 ELSE m.n] - 1))>>
                ELSE IF m.m \in Enums THEN <<RandomElement(0..(P2[m.n] - 1))>>
                ELSE IF m.b = 1 THEN Bind(RndBits(m.n), LAMBDA r : <<IF r = 65535 THEN r ELSE r + m.b>>)
                ELSE <<RndBits(m.n)>>
Do(m, v, o) == /\ b' = Write(b, m, v)
               /\ UNCHANGED <<c, ms, val>> /\ n' = n + 1
               /\ last' = [o |-> o, m |-> m.m, v |-> v]
               /\ Emit(o, m.m, v)
SetM == /\ ~IsVar(c)
        /\ \E i \in {RandomElement(1..Len(ms))} : \E v \in {RndFor(ms[i])} : Do(ms[i], v, "set")
ResetM == /\ ~IsVar(c)
          /\ \E P \in {{i \in 1..Len(ms) : ms[i].k = "p" /\ ms[i].m \notin NoReset}} :
               P # {} /\ \E i \in {RandomElement(P)} : Do(ms[i], <<>>, "reset")
\* two-bit enables are written as a whole
Sane(x, q) == FoldSeq(LAMBDA m, acc : IF m.k = "p" /\ m.enn > 1
      THEN Splice(acc, m.off, PutBits(WordAt(acc, m), IF Extract(WordAt(acc, m), m.en, 1) = 1 THEN P2[m.enn] - 1 ELSE 0, m.en, m.enn)) ELSE acc, x, q)
\* floating point carries 53 bits: 48 significant bits in 64-bit fixed-point members
Fx48(x, q) == FoldSeq(LAMBDA m, acc : IF m.k = "r" /\ m.rx >= 0 /\ m.n = 8
      THEN (IF acc[m.off + 8] % 3 = 0 THEN Splice(acc, m.off + 6, <<0, 0>>)
            ELSE Splice(acc, m.off, LET s == IF acc[m.off + 3] >= 128 THEN 255 ELSE 0 IN <<s, s>>)) ELSE acc, x, q)
\* counts of 65536 are out of reach of the interface, whose numbers have 16 bits
Count16(x, q) == FoldSeq(LAMBDA m, acc : IF m.k = "w" /\ m.b = 1 /\ m.n = 16 /\ Extract(WordAt(acc, m), m.hi, m.n) = 65535
      THEN Splice(acc, m.off, PutBits(WordAt(acc, m), 65534, m.hi, m.n)) ELSE acc, x, q)
Load == /\ ~IsVar(c)
        /\ \E x \in {Count16(Fx48(Sane(RndRaw(Len(b)), ms), ms), ms)} : b' = x
        /\ UNCHANGED <<c, ms, val>> /\ n' = n + 1 /\ last' = [o |-> "load"]
        /\ Emit("load", "-", b')
\* the quantity (raw + q/4) / 2^rx, between two encodable ones, written to a fixed-point member:
\* the implementation may choose either neighbour; the member is then written exactly
Succ(x) == FoldRight(LAMBDA e, acc : IF acc[2] = 0 THEN <<<<e>> \o acc[1], 0>>
                                    ELSE IF e = 255 THEN <<<<0>> \o acc[1], 1>> ELSE <<<<e + 1>> \o acc[1], 0>>, x, <<<<>>, 1>>)[1]
Near == /\ ~IsVar(c)
        /\ \E P \in {{i \in 1..Len(ms) : ms[i].rx >= 0}} : P # {} /\
             \E i \in {RandomElement(P)} : \E v \in {LowFx(ms[i].n)} : \E q \in {RandomElement(1..3)} :
               /\ v # <<127>> \o Fill(ms[i].n - 1, 255) /\ v # Fill(ms[i].n, 255)
               /\ Rec([o |-> "near", k |-> ms[i].m, v |-> v, q |-> q, one |-> Write(b, ms[i], v), two |-> Write(b, ms[i], Succ(v))])
               /\ Do(ms[i], v, "set")
\* variable-length formats: members as a whole, or decoded from an encoding
SetV == /\ IsVar(c)
        /\ \E v \in {RndV(c)} : \E i \in {RandomElement(1..Len(ms))} : \E all \in {RandomElement({TRUE,FALSE})} :
             /\ val' = IF all \/ ms[i].m \in {"async_channel_list", "async_channel_tag_list"} THEN v ELSE [val EXCEPT ![ms[i].m] = v[ms[i].m]]
             /\ UNCHANGED <<c, ms, b>> /\ n' = n + 1 /\ last' = [o |-> "all"]
             /\ Emit("all", "-", val')
LoadV == /\ IsVar(c)
         /\ \E v \in {RndV(c)} : val' = Canon(c.t, v)
         /\ UNCHANGED <<c, ms, b>> /\ n' = n + 1 /\ last' = [o |-> "load"]
         /\ Emit("load", "-", EncT(Ty, val'))
Next == IF n = 0 THEN Start ELSE \E k \in {RandomElement(1..8)} :
        CASE k \in 1..4 -> SetM \/ SetV
          [] k = 5 -> IF \E i \in 1..Len(ms) : ms[i].k = "p" /\ ms[i].m \notin NoReset THEN ResetM ELSE (SetM \/ SetV)
          [] k = 6 -> IF \E i \in 1..Len(ms) : ms[i].rx >= 0 THEN Near ELSE (SetM \/ SetV)
          [] OTHER -> Load \/ LoadV
Spec == Init /\ [][Next]_vars

\* --- every member of every class, systematically --------------------------------
\* from all zeros and from all ones: each member takes each of a set of values that
\* exercises every one of its bits, and each pair is cleared
Patterns(m) ==
  LET k == m.n
      legal(v) == m.b = 0 \/ v < 65535
  IN IF m.k = "r"
     THEN LET q == IF m.rx >= 0 /\ k = 8 THEN {<<0,0,1,2,3,4,5,6>>, <<255,255,254,220,186,152,118,84>>, <<1,2,3,4,5,6,0,0>>,
                                                <<128,0,0,0,0,0,0,0>>, <<127,255,255,255,255,255,252,0>>, <<0,0,0,0,0,0,0,1>>, Fill(8,255)}
                   ELSE {[j \in 1..k |-> j], [j \in 1..k |-> 255 - 17 * (j % 15)], <<128>> \o Zeros(k-1), <<127>> \o Fill(k-1,255), Fill(k,255)}
                        \cup {[j \in 1..k |-> IF j = x THEN 129 ELSE 0] : x \in 1..k}
          IN {Zeros(k)} \cup q
     ELSE {<<v + m.b>> : v \in {x \in {0, P2[k] - 1} \cup {P2[j] : j \in 0..(k-1)} \cup {P2[k] - 1 - P2[j] : j \in 0..(k-1)} : legal(x)}}
          \cup (IF Wide(m) THEN {<<v>> : v \in {P2[IF k < 8 THEN 8 ELSE IF k < 16 THEN 16 ELSE k] - 1, IF k < 8 THEN 170 ELSE IF k < 16 THEN 43690 ELSE 0}} ELSE {})
          \cup (IF m.k = "p" /\ m.m \notin NoReset THEN {<<>>} ELSE {})
Base(k) == Count16(Fx48(Sane(Fill(Len(Zero(c)), IF k = 1 THEN 0 ELSE 255), ms), ms), ms)
Todo(x) == FlattenSeq([i \in 1..Len(Members(x)) |-> [j \in 1..Cardinality(Patterns(Members(x)[i])) |-> <<i, SetToSeq(Patterns(Members(x)[i]))[j]>>]])
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
XInit == /\ \E i \in 1..Len(Classes) : i % Parts = Part /\ ~IsVar(Classes[i]) /\ c = Classes[i]
         /\ ms = Members(c) /\ b = Zero(c) /\ val = Todo(c) /\ n = 0 /\ last = [o |-> "init"]
XRec(r) == Rec([cls |-> c.name] @@ r)
XNext == /\ n < 2 * Len(val)
         /\ LET t == val[n \div 2 + 1]
                m == ms[t[1]]
                base == Base(n % 2)
                w == Write(base, m, t[2])
                o == IF t[2] = <<>> THEN "reset" ELSE "set"
            IN /\ n' = n + 1 /\ b' = w /\ UNCHANGED <<c, ms, val>>
               /\ last' = [o |-> "x"]
               /\ Assert(\A i \in 1..Len(ms) : i # t[1] => Read(w, ms[i]) = Read(base, ms[i]), <<c.name, m, t>>)
               /\ XRec([o |-> "load", k |-> "-", v |-> base, data |-> base, obs |-> ReadAll(base, ms)])
               /\ XRec([o |-> o, k |-> m.m, v |-> t[2], data |-> w, obs |-> ReadAll(w, ms)])
XSpec == XInit /\ [][XNext]_vars

\* --- the properties, on the specification ------------------------------------
\* a write is read back (reduced to the member's width) and disturbs nothing else
WriteIsLocal == [][last'.o \in {"set","reset"} =>
    /\ \A i \in 1..Len(ms) : ms[i].m # last'.m => Read(b', ms[i]) = Read(b, ms[i])
    /\ \A i \in 1..Len(ms) : ms[i].m = last'.m =>
         Read(b', ms[i]) = (IF ms[i].k = "r" \/ last'.v = <<>> THEN last'.v
                            ELSE IF ms[i].b = 1 THEN last'.v ELSE <<last'.v[1] % P2[ms[i].n]>>)]_vars
RoundTrip == n = 0 \/ IF IsVar(c) THEN DecT(Ty, Bytes_)[1] = Obs_ /\ DecT(Ty, Bytes_)[2] = Len(Bytes_) /\ Len(Bytes_) % 4 = 0
             ELSE Len(b) = FixedSize(c.ps) /\ (c.t # "" => DecT(Ty, b)[1] = Obs_)
\* a pair member is reported exactly when its enable bits are all one
PairRule == \A i \in 1..Len(ms) : ms[i].k = "p" =>
    ((Read(b, ms[i]) # <<>>) <=> (Extract(WordAt(b, ms[i]), ms[i].en, ms[i].enn) = P2[ms[i].enn] - 1))
=============================================================================
