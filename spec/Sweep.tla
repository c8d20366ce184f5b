------------------------------- MODULE Sweep -------------------------------
(* Fixed-point quantities over whole ranges.  The real code was driven with   *)
(* the quantities (raw + q/4) / 2^rx for every raw in lo..hi (with the given   *)
(* step); it recorded, as maximal runs <<from, to, d>>, by how much the        *)
(* encoded integer differs from raw and the value read back from the encoded  *)
(* integer.  This module decides whether that record is one the specification *)
(* allows: representable values are exact, others are one of two neighbours,   *)
(* and every fixed-point member of every format has been recorded.            *)
EXTENDS CodecTable, Json, IOUtils

FxTypes == {"fx16r7", "fx16r6", "fx32r6", "fx64r20"}
NeededMembers == UNION {{<<Classes[i].name, Members(Classes[i])[j].m>> : j \in {k \in 1..Len(Members(Classes[i])) : Members(Classes[i])[k].rx >= 0}} : i \in 1..Len(Classes)}
NeededFields == UNION {{<<"field", t[k][1]>> : k \in {j \in 1..Len(t) : t[j][3] \in FxTypes}} : t \in Range(CifTables)}

Record == JsonDeserialize(IOEnv.SWEEPS)
\* the runs leave no gap between lo and hi (written as strings where 64 bits are needed)
Contiguous(s, runs) == runs # <<>> /\ runs[1][1] = s.lo /\ runs[Len(runs)][2] = s.hi
Ok(s) == /\ Contiguous(s, s.enc) /\ Contiguous(s, s.dec)
         /\ \A i \in 1..Len(s.enc) : s.enc[i][3] \in (IF s.q = 0 THEN {0} ELSE {0, 1})
         /\ \A i \in 1..Len(s.dec) : s.dec[i][3] = 0
Bad == {i \in 1..Len(Record) : ~Ok(Record[i])}
ASSUME PrintT("@" \o ToJson([bad |-> SetToSeq(Bad),
           missing |-> SetToSeq((NeededMembers \cup NeededFields) \ {<<Record[i].cls, Record[i].m>> : i \in {j \in 1..Len(Record) : Record[j].q = 0}})]))
=============================================================================
