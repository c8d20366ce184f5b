------------------------------- MODULE Packet -------------------------------
(* One packet object of a generated class: abstract state, the operations of  *)
(* its public interface, and its wire format.                                  *)
(*                                                                            *)
(* State p (a record):                                                         *)
(*  cnt pad info      packet count, class-id pad bits, information code        *)
(*  tsi tsf tsm       header modes                                             *)
(*  sid               4 raw bytes, or a value of the user-defined stream id    *)
(*  its fts           integer / fractional timestamp bytes                     *)
(*  cam mid ctee cter command words                                            *)
(*  ci                change indicator                                         *)
(*  fv                one entry per field of the shape: <<>> absent, <<value>> *)
(*  av                the attributes of each field: <<>> absent or one value   *)
(*                    per attribute of the shape                               *)
(*  pay tr            payload bytes, trailer value                             *)
EXTENDS Defs

Absent == <<>>
On(p, i) == p.fv[i] # Absent
Idx(sh) == 1..Len(sh.fields)

IdSize(x) == CASE x = "word" -> 4 [] x = "uuid" -> 16 [] OTHER -> 0

\* value a required field has in a new packet: the all-zero wire value for plain
\* members, the format's default for structures
InitVal(sh, f) == IF sh.query THEN EmptyVal ELSE ZeroT(f.ty)
\* format of attribute j of field i
AtTy(sh, i, j) == IF sh.at7[j].t = "" THEN sh.fields[i].ty ELSE T(sh.at7[j].t)
ZeroAts(sh, i) == [j \in 1..Len(sh.at7) |-> ZeroT(AtTy(sh, i, j))]
InitFields(sh) == [i \in Idx(sh) |-> IF sh.fields[i].req THEN <<InitVal(sh, sh.fields[i])>> ELSE Absent]

Init0(sh) ==
  [ cnt |-> 0, pad |-> 0, info |-> sh.ic, tsi |-> sh.tsi, tsf |-> sh.tsf, tsm |-> sh.b24,
    sid |-> IF sh.sid = "user" THEN ZeroT(sh.sidty) ELSE sh.sidv,
    its |-> Zeros(4), fts |-> Zeros(8), cam |-> sh.cam, mid |-> Zeros(4),
    ctee |-> Zeros(IdSize(sh.ctee)), cter |-> Zeros(IdSize(sh.cter)),
    ci |-> 0, fv |-> InitFields(sh), av |-> [i \in Idx(sh) |-> IF sh.fields[i].req THEN ZeroAts(sh, i) ELSE <<>>],
    pay |-> <<>>, tr |-> IF sh.trailer THEN ZeroT(sh.trty) ELSE EmptyVal ]

\* --- encoding -----------------------------------------------------------------
HeaderWord(sh, p, words) ==
  Word(<<[v |-> sh.ptype, hi |-> 31, n |-> 4], [v |-> IF sh.hascls THEN 1 ELSE 0, hi |-> 27, n |-> 1],
         [v |-> sh.b26, hi |-> 26, n |-> 1], [v |-> sh.b25, hi |-> 25, n |-> 1],
         [v |-> IF sh.tsmany THEN p.tsm ELSE sh.b24, hi |-> 24, n |-> 1],
         [v |-> IF sh.its THEN p.tsi ELSE 0, hi |-> 23, n |-> 2], [v |-> IF sh.fts THEN p.tsf ELSE 0, hi |-> 21, n |-> 2],
         [v |-> p.cnt, hi |-> 19, n |-> 4], [v |-> words, hi |-> 15, n |-> 16]>>)
ClassWords(sh, p) ==
  Word(<<[v |-> p.pad, hi |-> 31, n |-> 5], [v |-> sh.oui[1], hi |-> 23, n |-> 8],
         [v |-> sh.oui[2], hi |-> 15, n |-> 8], [v |-> sh.oui[3], hi |-> 7, n |-> 8]>>)
  \o Word(<<[v |-> p.info, hi |-> 31, n |-> 16], [v |-> sh.pc, hi |-> 15, n |-> 16]>>)
SidBytes(sh, p) == IF sh.sid = "none" THEN <<>> ELSE IF sh.sid = "user" THEN EncT(sh.sidty, p.sid) ELSE p.sid
CamWord(cam) == Word([i \in 1..Len(CamBits) |-> [v |-> cam[CamBits[i].m], hi |-> CamBits[i].hi, n |-> CamBits[i].n]])
\* acknowledge flags that follow from the responses present
AnyIn(sh, p, gs) == \E i \in Idx(sh) : p.fv[i] # Absent /\ sh.fields[i].g \in gs
CamNow(sh, p) == IF sh.vx THEN [p.cam EXCEPT !["w"] = IF AnyIn(sh, p, {1,2,3}) THEN 1 ELSE 0,
                                             !["er"] = IF AnyIn(sh, p, {4,5,6}) THEN 1 ELSE 0]
                 ELSE p.cam

\* is indicator word g part of the packet
WordOn(sh, p, g) ==
  IF sh.vx THEN (IF g \in {1, 4} THEN AnyIn(sh, p, {g, g+1, g+2}) ELSE AnyIn(sh, p, {g}))
  ELSE CASE g = 1 -> sh.has0
         [] g = 2 -> sh.has0 /\ (sh.g1 = "always" \/ (sh.g1 = "dyn" /\ AnyIn(sh, p, {2})))
         [] g = 3 -> sh.has0 /\ (sh.g2 = "always" \/ (sh.g2 = "dyn" /\ AnyIn(sh, p, {3})))
         [] OTHER -> FALSE
Bit(b) == [v |-> 1, hi |-> b, n |-> 1]
GroupIdx(sh, g) == sh.gidx[g]
IndWord(sh, p, g) ==
  IF ~WordOn(sh, p, g) THEN <<>>
  ELSE LET head == g = 1 \/ (sh.vx /\ g = 4)
           gi == GroupIdx(sh, g)
           ms == SelectSeq([j \in 1..Len(gi) |-> Bit(IF On(p, gi[j]) THEN sh.fields[gi[j]].bit ELSE -1)], LAMBDA m : m.hi >= 0)
                 \o (IF head /\ WordOn(sh, p, g + 1) THEN <<Bit(1)>> ELSE <<>>)
                 \o (IF head /\ WordOn(sh, p, g + 2) THEN <<Bit(2)>> ELSE <<>>)
                 \o (IF head /\ sh.has7 THEN <<Bit(7)>> ELSE <<>>)
                 \o (IF head /\ ~sh.vx /\ p.ci = 1 THEN <<Bit(31)>> ELSE <<>>)
       IN Word(ms)
Cif7Word(sh) == IF sh.has7 THEN Word([i \in 1..Len(sh.c7) |-> Bit(sh.c7[i][2])]) ELSE <<>>
AtBytes(sh, p, i) == Cat([j \in 1..Len(p.av[i]) |-> EncT(AtTy(sh, i, j), p.av[i][j])])
FieldBytes(sh, p, i) == IF On(p, i) /\ ~sh.query THEN EncT(sh.fields[i].ty, p.fv[i][1]) \o AtBytes(sh, p, i) ELSE <<>>

Prologue(sh, p) ==
  SidBytes(sh, p) \o (IF sh.hascls THEN ClassWords(sh, p) ELSE <<>>)
  \o (IF sh.its THEN p.its ELSE <<>>) \o (IF sh.fts THEN p.fts ELSE <<>>)
  \o (IF sh.command THEN CamWord(CamNow(sh, p)) \o p.mid \o p.ctee \o p.cter ELSE <<>>)
Groups(sh) == IF sh.vx THEN <<1,2,3,4,5,6>> ELSE <<1,2,3>>
Body(sh, p) ==
  Prologue(sh, p)
  \o Cat([i \in 1..Len(Groups(sh)) |-> IndWord(sh, p, Groups(sh)[i])])
  \o Cif7Word(sh)
  \o Cat([i \in 1..Len(sh.fields) |-> FieldBytes(sh, p, i)])
  \o (IF sh.data THEN Padded(p.pay) ELSE <<>>)
  \o (IF sh.trailer THEN EncT(sh.trty, p.tr) ELSE <<>>)
Encode(sh, p) == LET b == Body(sh, p) IN HeaderWord(sh, p, 1 + Len(b) \div 4) \o b

\* --- decoding (independent of Encode's structure: reads positions front to back) ---
Drop(b, n) == SubSeq(b, n + 1, Len(b))
RECURSIVE DecAts(_, _, _, _)
\* attributes j on of field i; result <<values, rest>>
DecAts(sh, i, j, b) ==
  IF j > Len(sh.at7) THEN <<<<>>, b>>
  ELSE LET d == DecT(AtTy(sh, i, j), b)
           r == DecAts(sh, i, j + 1, Drop(b, d[2]))
       IN <<<<d[1]>> \o r[1], r[2]>>
RECURSIVE DecFields(_, _, _, _)
\* from field i on; on: which fields have their indicator set; result <<fv from i on, rest, av from i on>>
DecFields(sh, i, on, b) ==
  IF i > Len(sh.fields) THEN <<<<>>, b, <<>>>>
  ELSE IF ~on[i] THEN LET r == DecFields(sh, i + 1, on, b) IN <<<<Absent>> \o r[1], r[2], <<<<>>>> \o r[3]>>
  ELSE IF sh.query THEN LET r == DecFields(sh, i + 1, on, b) IN <<<<<<EmptyVal>>>> \o r[1], r[2], <<<<>>>> \o r[3]>>
  ELSE LET d == DecT(sh.fields[i].ty, b)
           a == DecAts(sh, i, 1, Drop(b, d[2]))
           r == DecFields(sh, i + 1, on, a[2])
       IN <<<<<<d[1]>>>> \o r[1], r[2], <<a[1]>> \o r[3]>>
BitOf(w, b) == Extract(w, b, 1) = 1

Decode(sh, bytes) ==
  LET h   == Sub(bytes, 1, 4)
      a   == Drop(bytes, 4)
      sid == IF sh.sid = "none" THEN sh.sidv ELSE IF sh.sid = "user" THEN DecT(sh.sidty, a)[1] ELSE Sub(a, 1, 4)
      a1  == IF sh.sid = "none" THEN a ELSE Drop(a, 4)
      c   == IF sh.hascls THEN Sub(a1, 1, 8) ELSE <<>>
      a2  == IF sh.hascls THEN Drop(a1, 8) ELSE a1
      its == IF sh.its THEN Sub(a2, 1, 4) ELSE Zeros(4)
      a3  == IF sh.its THEN Drop(a2, 4) ELSE a2
      fts == IF sh.fts THEN Sub(a3, 1, 8) ELSE Zeros(8)
      a4  == IF sh.fts THEN Drop(a3, 8) ELSE a3
      nct == IdSize(sh.ctee)
      ncr == IdSize(sh.cter)
      cam == IF sh.command THEN [k \in CamNames |-> LET m == CHOOSE y \in Range(CamBits) : y.m = k
                                                    IN Extract(Sub(a4,1,4), m.hi, m.n)] ELSE sh.cam
      mid == IF sh.command THEN Sub(a4, 5, 4) ELSE Zeros(4)
      cte == IF sh.command THEN Sub(a4, 9, nct) ELSE <<>>
      ctr == IF sh.command THEN Sub(a4, 9 + nct, ncr) ELSE <<>>
      a5  == IF sh.command THEN Drop(a4, 8 + nct + ncr) ELSE a4
      \* indicator words
      hw(b) == Sub(b, 1, 4)
      takeTriple(on, b) ==  \* <<word1, word2, word3, rest>>, empty word when absent
        IF ~on THEN <<Zeros(4), Zeros(4), Zeros(4), b>>
        ELSE LET w1 == hw(b)
                 b1 == Drop(b, 4)
                 h2 == BitOf(w1, 1)
                 w2 == IF h2 THEN hw(b1) ELSE Zeros(4)
                 b2 == IF h2 THEN Drop(b1, 4) ELSE b1
                 h3 == BitOf(w1, 2)
                 w3 == IF h3 THEN hw(b2) ELSE Zeros(4)
                 b3 == IF h3 THEN Drop(b2, 4) ELSE b2
             IN <<w1, w2, w3, b3>>
      t1  == takeTriple(IF sh.vx THEN cam["w"] = 1 ELSE sh.has0, a5)
      t2  == takeTriple(sh.vx /\ cam["er"] = 1, t1[4])
      a6  == IF sh.has7 THEN Drop(t2[4], 4) ELSE t2[4]
      ws  == <<t1[1], t1[2], t1[3], t2[1], t2[2], t2[3]>>
      on  == TLCEval([i \in Idx(sh) |-> BitOf(ws[sh.fields[i].g], sh.fields[i].bit)])
      fr  == DecFields(sh, 1, on, a6)
      trn == IF sh.trailer THEN 4 ELSE 0
      pay == IF sh.data THEN SubSeq(fr[2], 1, Len(fr[2]) - trn) ELSE <<>>
  IN [ cnt |-> Extract(h, 19, 4), pad |-> IF sh.hascls THEN Extract(Sub(c,1,4), 31, 5) ELSE 0,
       info |-> IF sh.hascls THEN Extract(Sub(c,5,4), 31, 16) ELSE sh.ic,
       tsi |-> IF sh.its THEN Extract(h, 23, 2) ELSE sh.tsi, tsf |-> IF sh.fts THEN Extract(h, 21, 2) ELSE sh.tsf,
       tsm |-> Extract(h, 24, 1), sid |-> sid, its |-> its, fts |-> fts, cam |-> cam, mid |-> mid,
       ctee |-> cte, cter |-> ctr, ci |-> IF sh.has0 /\ ~sh.vx /\ BitOf(t1[1], 31) THEN 1 ELSE 0,
       fv |-> fr[1], av |-> fr[3], pay |-> pay,
       tr |-> IF sh.trailer THEN DecT(sh.trty, Drop(fr[2], Len(fr[2]) - 4))[1] ELSE EmptyVal ]

\* The state a packet rebuilt from Encode(sh, p) must have: payload padded,
\* command flags that follow from responses filled in, padded ASCII
Rebuilt(sh, p) ==
  [p EXCEPT !.pay = Padded(@), !.cam = CamNow(sh, p),
            !.fv = [i \in Idx(sh) |-> IF @[i] = Absent \/ sh.query THEN @[i] ELSE <<Canon(sh.fields[i].ty.t, @[i][1])>>],
            !.av = [i \in Idx(sh) |-> [j \in 1..Len(@[i]) |-> Canon(AtTy(sh, i, j).t, @[i][j])]]]
RoundTripE(sh, p, enc) == \E q \in {TLCEval(Decode(sh, enc))} :
   /\ [q EXCEPT !.tsm = p.tsm] = Rebuilt(sh, p)
   /\ Encode(sh, q) = enc
RoundTripDiff(sh, p, enc) == LET q == TLCEval([Decode(sh, enc) EXCEPT !.tsm = p.tsm]) IN
   {<<k, q[k], Rebuilt(sh, p)[k]>> : k \in {x \in DOMAIN q : q[x] # Rebuilt(sh, p)[x]}}
RoundTrip(sh, p) == RoundTripE(sh, p, Encode(sh, p))
SizeOkE(b) ==
   /\ Len(b) % 4 = 0
   /\ Extract(Sub(b,1,4), 15, 16) = Len(b) \div 4
SizeOk(sh, p) == SizeOkE(Encode(sh, p))

\* --- recognition ------------------------------------------------------------------
\* The attributes in which bytes b differ from what the definition of the class
\* fixes; b is a packet of the class exactly when there are none.
\* An acknowledgement of the validation/execution class says which of the two it is.
CamPos(k) == CHOOSE y \in Range(CamBits) : y.m = k
PrologueLen(sh) ==
  4 + (IF sh.sid = "none" THEN 0 ELSE 4) + (IF sh.hascls THEN 8 ELSE 0) + (IF sh.its THEN 4 ELSE 0)
  + (IF sh.fts THEN 8 ELSE 0) + (IF sh.command THEN 8 + IdSize(sh.ctee) + IdSize(sh.cter) ELSE 0)
\* the part every packet of the class has, whatever its fields
FixedLen(sh) == PrologueLen(sh) + (IF sh.trailer THEN 4 ELSE 0)
ClsPos(sh) == 5 + (IF sh.sid = "none" THEN 0 ELSE 4)
CamAt(sh) == PrologueLen(sh) - 8 - IdSize(sh.ctee) - IdSize(sh.cter) + 1
Context(sh) == sh.ptype \in {4, 5}
Differs(sh, b) ==
  LET h == Sub(b, 1, 4)
      hd == <<[a |-> "type", hi |-> 31, n |-> 4, v |-> sh.ptype], [a |-> "class_enable", hi |-> 27, n |-> 1, v |-> IF sh.hascls THEN 1 ELSE 0]>>
               \o (IF Context(sh) THEN <<>> ELSE <<[a |-> "bit26", hi |-> 26, n |-> 1, v |-> sh.b26]>>)   \* reserved in context packets
               \o (IF sh.command THEN <<>> ELSE <<[a |-> "bit25", hi |-> 25, n |-> 1, v |-> sh.b25]>>)     \* and in commands
            \o (IF sh.tsmany THEN <<>> ELSE <<[a |-> "bit24", hi |-> 24, n |-> 1, v |-> sh.b24]>>)
            \o (IF sh.tsiany THEN <<>> ELSE <<[a |-> "tsi", hi |-> 23, n |-> 2, v |-> IF sh.its THEN sh.tsi ELSE 0]>>)
            \o (IF sh.tsfany THEN <<>> ELSE <<[a |-> "tsf", hi |-> 21, n |-> 2, v |-> IF sh.fts THEN sh.tsf ELSE 0]>>)
  IN IF Len(b) < FixedLen(sh) \/ Extract(h, 15, 16) * 4 > Len(b) \/ Extract(h, 15, 16) * 4 < FixedLen(sh) THEN {"length"}
     ELSE LET c == Sub(b, ClsPos(sh), 8)
              m == Sub(b, CamAt(sh), 4)
              cam(k) == Extract(m, CamPos(k).hi, CamPos(k).n)
          IN {hd[i].a : i \in {j \in 1..Len(hd) : Extract(h, hd[j].hi, hd[j].n) # hd[j].v}}
             \cup (IF sh.hascls /\ Sub(c, 2, 3) # sh.oui THEN {"oui"} ELSE {})
             \cup (IF sh.hascls /\ ~sh.icmulti /\ Extract(Sub(c, 5, 4), 31, 16) # sh.ic THEN {"information_code"} ELSE {})
             \cup (IF sh.hascls /\ Extract(Sub(c, 5, 4), 15, 16) # sh.pc THEN {"packet_code"} ELSE {})
             \cup (IF sh.command THEN {"cam_" \o k : k \in {x \in Range(sh.camfix) : cam(x) # sh.cam[x]}} ELSE {})
             \cup (IF sh.vx /\ cam("v") = 0 /\ cam("x") = 0 THEN {"cam_kind"} ELSE {})
Recognised(sh, b) == Differs(sh, b) = {}

\* --- extent -----------------------------------------------------------------------
\* How many bytes the contents announced in the packet's own bytes take up, for any
\* byte sequence that holds the fixed part; Huge when a count says more than fits
Huge == 100000000
RECURSIVE ExtAts(_, _, _, _, _)
ExtAts(sh, i, j, b, at) ==
  IF at >= Huge THEN Huge ELSE IF j > Len(sh.at7) THEN at
  ELSE ExtAts(sh, i, j + 1, b, at + ExtT(AtTy(sh, i, j), Drop(b, at)))
RECURSIVE ExtFields(_, _, _, _, _)
ExtFields(sh, i, on, b, at) ==
  IF at >= Huge THEN Huge
  ELSE IF i > Len(sh.fields) THEN at
  ELSE IF ~on[i] \/ sh.query THEN ExtFields(sh, i + 1, on, b, at)
  ELSE ExtFields(sh, i + 1, on, b, ExtAts(sh, i, 1, b, at + ExtT(sh.fields[i].ty, Drop(b, at))))
\* assume: count the required fields too when their bit is missing
Extent(sh, d, assume) ==
  LET b   == Sub(d, 1, Extract(Sub(d, 1, 4), 15, 16) * 4)
      a   == PrologueLen(sh)
      cam(k) == sh.command /\ Extract(Sub(b, CamAt(sh), 4), CamPos(k).hi, CamPos(k).n) = 1
      \* <<words, position behind them>>
      \* words the class does not have are none of its contents
      has(g) == IF sh.vx THEN GroupIdx(sh, g) # <<>> ELSE (IF g = 2 THEN sh.g1 ELSE sh.g2) # "none"
      triple(on, at, g) ==
        IF ~on THEN <<<<Zeros(4), Zeros(4), Zeros(4)>>, at>>
        ELSE IF at + 4 > Len(b) THEN <<<<Zeros(4), Zeros(4), Zeros(4)>>, Huge>>
        ELSE LET w  == Sub(b, at + 1, 4)
                 e2 == BitOf(w, 1) /\ has(g + 1)
                 e3 == BitOf(w, 2) /\ has(g + 2)
                 en == at + 4 + (IF e2 THEN 4 ELSE 0) + (IF e3 THEN 4 ELSE 0)
             IN IF en > Len(b) THEN <<<<Zeros(4), Zeros(4), Zeros(4)>>, Huge>>
                ELSE <<<<w, IF e2 THEN Sub(b, at + 5, 4) ELSE Zeros(4), IF e3 THEN Sub(b, en - 3, 4) ELSE Zeros(4)>>, en>>
      t1  == triple(IF sh.vx THEN cam("w") /\ sh.warn ELSE sh.has0, a, 1)
      t2  == triple(sh.vx /\ cam("er") /\ sh.err /\ t1[2] < Huge, t1[2], 4)
      ws  == t1[1] \o t2[1]
      on  == TLCEval([i \in Idx(sh) |-> BitOf(ws[sh.fields[i].g], sh.fields[i].bit) \/ (assume /\ sh.fields[i].req)])
      at  == t2[2] + (IF sh.has7 THEN 4 ELSE 0)
  IN IF t2[2] >= Huge THEN Huge ELSE ExtFields(sh, 1, on, b, at)
\* the contents of an accepted packet do not fit the packet: there is no value to report
\* under either reading of a missing indicator of something required
CutShort(sh, d) ==
  /\ \A as \in {TRUE, FALSE} : Extent(sh, d, as) + (IF sh.trailer THEN 4 ELSE 0) > Extract(Sub(d, 1, 4), 15, 16) * 4
  /\ (sh.has0 /\ Len(d) >= PrologueLen(sh) + 4) =>
       LET w == Sub(d, PrologueLen(sh) + 1, 4) IN (sh.g1 = "always" => BitOf(w, 1)) /\ (sh.g2 = "always" => BitOf(w, 2)) /\ (sh.has7 => BitOf(w, 7))

\* --- operations -----------------------------------------------------------------
\* Apply(sh, p, op) is the state after op; op is a record with name o, key k (field number i), value v
Apply(sh, p, op) ==
  CASE op.o = "set"   -> [p EXCEPT !.fv[op.i] = <<op.v>>, !.av[op.i] = IF On(p, op.i) THEN @ ELSE ZeroAts(sh, op.i)]
    [] op.o = "attr"  -> [p EXCEPT !.av[op.i][op.j] = op.v]
    [] op.o = "mod"   -> [p EXCEPT !.fv[op.i] = <<op.v>>]   \* through the returned reference
    [] op.o = "reset" -> [p EXCEPT !.fv[op.i] = Absent, !.av[op.i] = <<>>]
    [] op.o = "drop"  -> [p EXCEPT !.fv[op.i] = Absent, !.av[op.i] = <<>>]         \* reset() of the returned optional
    [] op.o = "enable" -> [p EXCEPT !.fv[op.i] = IF op.v = 1 THEN <<EmptyVal>> ELSE Absent]
    [] op.o = "resetword" -> [p EXCEPT !.fv = [i \in Idx(sh) |-> IF sh.fields[i].g \in op.gs THEN Absent ELSE @[i]],
                                   !.av = [i \in Idx(sh) |-> IF sh.fields[i].g \in op.gs THEN <<>> ELSE @[i]]]
    [] op.o = "cnt"   -> [p EXCEPT !.cnt = op.v % 16]
    [] op.o = "pad"   -> [p EXCEPT !.pad = op.v % 32]
    [] op.o = "info"  -> [p EXCEPT !.info = op.v]
    [] op.o = "tsi"   -> [p EXCEPT !.tsi = op.v]
    [] op.o = "tsf"   -> [p EXCEPT !.tsf = op.v]
    [] op.o = "tsm"   -> [p EXCEPT !.tsm = op.v]
    [] op.o = "sid"   -> [p EXCEPT !.sid = op.v]
    [] op.o = "its"   -> [p EXCEPT !.its = op.v]
    [] op.o = "fts"   -> [p EXCEPT !.fts = op.v]
    [] op.o = "cam"   -> [p EXCEPT !.cam = [@ EXCEPT ![op.k] = op.v]]
    [] op.o = "mid"   -> [p EXCEPT !.mid = op.v]
    [] op.o = "ctee"  -> [p EXCEPT !.ctee = op.v]
    [] op.o = "cter"  -> [p EXCEPT !.cter = op.v]
    [] op.o = "ci"    -> [p EXCEPT !.ci = op.v]
    [] op.o = "pay"   -> [p EXCEPT !.pay = op.v]
    [] op.o = "tr"    -> [p EXCEPT !.tr = [@ EXCEPT ![op.k] = op.v]]
    [] op.o = "rebuild" -> Decode(sh, Encode(sh, p))
    [] op.o = "new"   -> Init0(sh)
    [] OTHER -> p
\* the observation: what the getters report
CamSeen == {"v","x","s"}
Observe(sh, p) ==
  [cnt |-> p.cnt, pad |-> p.pad, info |-> p.info, sid |-> p.sid, its |-> p.its, fts |-> p.fts, tsi |-> p.tsi, tsf |-> p.tsf, tsm |-> p.tsm,
   mid |-> p.mid, ctee |-> p.ctee, cter |-> p.cter, cam |-> CamNow(sh, p), ci |-> p.ci, fv |-> p.fv, av |-> p.av, pay |-> Padded(p.pay), tr |-> p.tr]
=============================================================================
