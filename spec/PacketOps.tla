------------------------------ MODULE PacketOps ------------------------------
(* Random operations on a packet of a given class, for the generating modules. *)
EXTENDS Packet, Json, IOUtils
Emit(r) == PrintT("@" \o ToJson(r))

StructField(f) == f.ty.t \notin {"u32","i32","u64","i64","id16","fx16r7","fx16r6","fx32r6","fx64r20","uuid"}
OptI(c) == {i \in Idx(c) : ~c.fields[i].req}
OpNames(c) ==
  (IF c.fields # <<>> /\ ~c.query THEN <<"set", "set", "set", "set", "mod">> ELSE <<>>)
  \o (IF c.fields # <<>> /\ c.at7 # <<>> THEN <<"attr", "attr", "attr", "attr">> ELSE <<>>)
  \o (IF ~c.query /\ OptI(c) # {} THEN <<"reset", "reset", "drop">> ELSE <<>>)
  \o (IF c.query /\ c.fields # <<>> THEN <<"enable", "enable", "enable", "reset">> ELSE <<>>)
  \o (IF c.vx /\ c.fields # <<>> THEN <<"resetword">> ELSE <<>>)
  \o (IF ~c.vx /\ (c.g1 = "dyn" \/ c.g2 = "dyn") THEN <<"resetword">> ELSE <<>>)
  \o <<"cnt">> \o (IF c.hascls THEN <<"pad">> ELSE <<>>)
  \o (IF c.hascls /\ c.icmulti THEN <<"info">> ELSE <<>>)
  \o (IF c.sid # "none" THEN <<"sid">> ELSE <<>>)
  \o (IF c.its THEN <<"its">> ELSE <<>>) \o (IF c.fts THEN <<"fts">> ELSE <<>>)
  \o (IF c.tsiany THEN <<"tsi">> ELSE <<>>) \o (IF c.tsfany THEN <<"tsf">> ELSE <<>>)
  \o (IF c.tsmany THEN <<"tsm">> ELSE <<>>)
  \o (IF c.command THEN <<"mid">> ELSE <<>>) \o (IF c.camset # <<>> THEN <<"cam", "cam">> ELSE <<>>)
  \o (IF c.ctee # "" THEN <<"ctee">> ELSE <<>>) \o (IF c.cter # "" THEN <<"cter">> ELSE <<>>)
  \o (IF c.has0 /\ ~c.query THEN <<"ci">> ELSE <<>>)
  \o (IF c.data THEN <<"pay", "pay", "pay", "pay">> ELSE <<>>)
  \o (IF c.trailer THEN <<"tr", "tr", "tr">> ELSE <<>>)
  \o <<"rebuild", "new", "data", "data", "data", "obs", "obs">>

Pick(sq) == sq[RandomElement(1..Len(sq))]
RndPayload(x) == Bind(Bind(RandomElement(1..8), LAMBDA l :
                    CASE l = 1 -> 0 [] l = 2 -> 1 [] l = 3 -> RandomElement(30..70) [] OTHER -> RandomElement(0..13)),
                 LAMBDA len : [i \in 1..len |-> RndByte(i)])
\* change one part of a value, keep the rest
Mix(old, new) == Bind(new, LAMBDA nw :
  Bind([x \in DOMAIN old |-> RandomElement(1..3) = 1], LAMBDA c :
    \* the channel tag list, when present, has one entry per channel: the two change together
    [x \in DOMAIN old |-> IF c[IF x = "async_channel_tag_list" THEN "async_channel_list" ELSE x] THEN nw[x] ELSE old[x]]))
Skip == [o |-> "obs"]
CamMem(k) == CHOOSE y \in Range(CamBits) : y.m = k
TrMem(c, k) == LET ms == c.trty.parts[1].ms IN CHOOSE y \in Range(ms) : y.m = k
TrKeys(c) == {c.trty.parts[1].ms[i].m : i \in 1..Len(c.trty.parts[1].ms)}
\* these two trailer members can be set but offer no way to be cleared
NoReset == {"sample_frame", "associated_context_packets_count"}
\* Fn of a random member of the set of field numbers is
PickI(is, Fn(_)) == IF is = {} THEN Skip ELSE Bind(RandomElement(is), Fn)

GenOp(c, st, o) ==
  CASE o = "set" -> PickI(Idx(c), LAMBDA i : [o |-> "set", i |-> i, k |-> c.fields[i].k, v |-> RndT(c.fields[i].ty)])
    [] o = "mod" -> PickI({i \in Idx(c) : On(st, i) /\ StructField(c.fields[i])},
                          LAMBDA i : [o |-> "mod", i |-> i, k |-> c.fields[i].k, v |-> Mix(st.fv[i][1], RndT(c.fields[i].ty))])
    [] o = "attr" -> PickI({i \in Idx(c) : On(st, i)}, LAMBDA i : Bind(RandomElement(1..Len(c.at7)), LAMBDA j :
                        [o |-> "attr", i |-> i, j |-> j, k |-> c.fields[i].k \o ":" \o c.at7[j].k, v |-> RndT(AtTy(c, i, j))]))
    [] o = "reset" -> LET on == {i \in OptI(c) : On(st, i)}
                      IN PickI(IF on # {} /\ RandomElement(1..4) # 1 THEN on ELSE OptI(c),
                               LAMBDA i : [o |-> "reset", i |-> i, k |-> c.fields[i].k])
    [] o = "drop" -> PickI({i \in OptI(c) : On(st, i) /\ StructField(c.fields[i])},
                           LAMBDA i : [o |-> "drop", i |-> i, k |-> c.fields[i].k])
    [] o = "enable" -> PickI(Idx(c), LAMBDA i : [o |-> "enable", i |-> i, k |-> c.fields[i].k, v |-> RandomElement(0..1)])
    [] o = "resetword" ->
         IF c.vx THEN
           LET gs == {g \in 1..6 : \E i \in 1..Len(c.fields) : c.fields[i].g = g}
               heads == {IF g \in 1..3 THEN 1 ELSE 4 : g \in gs}
               nm == <<"wif_0","wif_1","wif_2","eif_0","eif_1","eif_2">>
           IN Bind(RandomElement(gs \cup heads), LAMBDA g :
                [o |-> "resetword", k |-> nm[g], gs |-> IF g \in {1,4} THEN {g, g+1, g+2} ELSE {g}])
         ELSE Bind(RandomElement((IF c.g1 = "dyn" THEN {2} ELSE {}) \cup (IF c.g2 = "dyn" THEN {3} ELSE {})), LAMBDA g :
                [o |-> "resetword", k |-> IF g = 2 THEN "cif_1" ELSE "cif_2", gs |-> {g}])
    [] o = "cnt" -> [o |-> "cnt", v |-> RandomElement({0, 1, 7, 8, 14, 15, 16, 31, 255, RandomElement(0..15)})]
    [] o = "pad" -> [o |-> "pad", v |-> RandomElement({0, 1, 16, 31, 32, 63, 255, RandomElement(0..31)})]
    [] o = "info" -> [o |-> "info", v |-> RndBits(16)]
    [] o = "sid" -> [o |-> "sid", v |-> IF c.sid = "user" THEN Mix(st.sid, RndT(c.sidty)) ELSE RndRaw(4)]
    [] o = "its" -> [o |-> "its", v |-> RndRaw(4)]
    [] o = "fts" -> [o |-> "fts", v |-> RndRaw(8)]
    [] o = "tsi" -> [o |-> "tsi", v |-> RandomElement(0..3)]
    [] o = "tsf" -> [o |-> "tsf", v |-> RandomElement(0..3)]
    [] o = "tsm" -> [o |-> "tsm", v |-> RandomElement(0..1)]
    [] o = "mid" -> [o |-> "mid", v |-> RndRaw(4)]
    [] o = "cam" -> Bind(Pick(c.camset), LAMBDA k :
                      [o |-> "cam", k |-> k, v |-> IF k = "timing_control" THEN RandomElement(0..4) ELSE RandomElement(0..1)])
    [] o = "ctee" -> [o |-> "ctee", v |-> RndRaw(IdSize(c.ctee))]
    [] o = "cter" -> [o |-> "cter", v |-> RndRaw(IdSize(c.cter))]
    [] o = "ci" -> [o |-> "ci", v |-> RandomElement(0..1)]
    [] o = "pay" -> [o |-> "pay", v |-> RndPayload(o)]
    [] o = "tr" -> Bind(RandomElement(TrKeys(c)), LAMBDA k :
                     Bind(RndMember(TrMem(c, k)), LAMBDA v :
                        IF v = <<>> /\ k \in NoReset THEN Skip ELSE [o |-> "tr", k |-> k, v |-> v]))
    [] OTHER -> [o |-> o]

\* a packet after k random operations
RECURSIVE Walk(_, _, _)
Walk(c, st, k) == IF k = 0 THEN st
                  ELSE Bind(GenOp(c, st, Pick(OpNames(c))), LAMBDA op : Bind(Apply(c, st, op), LAMBDA q : Walk(c, q, k - 1)))
=============================================================================
