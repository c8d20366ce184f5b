------------------------------- MODULE GenDefs -------------------------------
(* Random well-formed definition files: a data packet, a context packet, a    *)
(* control packet and the acknowledgement that responds to it, drawn from     *)
(* everything the definition language allows (Defs gives them their meaning). *)
EXTENDS Defs, Json, IOUtils

VARIABLE n
Emit(r) == PrintT("@" \o ToJson(r))
Pick(sq) == sq[RandomElement(1..Len(sq))]
Coin(a, b) == RandomElement(1..b) <= a
Opt(v, none) == IF Coin(1, 2) THEN v ELSE none

\* --- parts -----------------------------------------------------------------------
Modes == <<"required", "optional">>
FieldRec(nm, mode, x, dio) == [n |-> nm, mode |-> mode, x |-> x, dio |-> dio]
\* members of a discrete I/O word filling at most lim bits
RECURSIVE RndDio(_, _, _)
RndDio(i, room, left) ==
  IF left = 0 \/ room <= 0 THEN <<>>
  ELSE Bind(Pick(<<"bool", "bool", "ind", "int", "int", "enum">>), LAMBDA k :
       Bind(CASE k = "bool" -> 1 [] k = "ind" -> 1 [] k = "int" -> RandomElement(2..13) [] OTHER -> RandomElement(2..9), LAMBDA len :
       Bind(<<"m" \o ToString(i) \o "_" \o k, k, len>>, LAMBDA x :
         IF DioWidth(x) > room THEN <<>> ELSE <<x>> \o RndDio(i + 1, room - DioWidth(x), left - 1))))
DioSum(xs) == FoldSeq(LAMBDA x, a : a + DioWidth(x), 0, xs)
RndDioFor(nm) ==
  IF nm = "discrete_io_32" THEN RndDio(1, 32, RandomElement(1..7))
  ELSE Bind(RndDio(1, 32, RandomElement(1..5)), LAMBDA lo :
         IF Coin(1, 2) THEN lo
         ELSE Bind(32 - DioSum(lo), LAMBDA gap :
              \* fill the low half, so that the next member starts at bit 32
              lo \o (IF gap = 0 THEN <<>> ELSE IF gap > 30 THEN <<<<"fill_a", "int", 16>>, <<"fill_b", "int", gap - 16>>>> ELSE <<<<"fill_a", "int", gap>>>>)
              \o RndDio(20, 32, RandomElement(1..4))))
RndField(nm) ==
  Bind(Pick(Modes), LAMBDA mode :
    CASE nm = "index_list" -> FieldRec(nm, "required", Pick(<<"8", "16", "32">>), <<>>)
      [] nm \in {"reference_level", "buffer_size"} -> FieldRec(nm, mode, Opt("difi", ""), <<>>)
      [] nm \in {"discrete_io_32", "discrete_io_64"} ->
           Bind(IF Coin(3, 4) THEN RndDioFor(nm) ELSE <<>>, LAMBDA d : FieldRec(nm, mode, "", d))
      [] OTHER -> FieldRec(nm, mode, "", <<>>))
Names(tbl, ban) == SelectSeq([i \in 1..Len(tbl) |-> tbl[i][1]], LAMBDA x : x \notin ban)
\* dens out of 12: how many fields, on average
RndCif(tbl, ban, dens) ==
  Bind(SelectSeq(Names(tbl, ban), LAMBDA x : Coin(dens, 12)), LAMBDA ns : [i \in 1..Len(ns) |-> RndField(ns[i])])
NoCif == [on |-> FALSE, f |-> <<>>]
CifOf(fs) == [on |-> TRUE, f |-> fs]
Ban1 == {"sector_step_scan"}

RndSidParts(x) ==
  Bind(RandomElement(1..4), LAMBDA c :
    CASE c = 1 -> <<<<"lane", RandomElement(1..30)>>>>
      [] c = 2 -> <<<<"lane", RandomElement(1..16)>>, <<"unit", RandomElement(1..16)>>>>
      [] c = 3 -> <<<<"lane", RandomElement(1..8)>>, <<"unit", RandomElement(1..8)>>, <<"bank", RandomElement(1..16)>>>>
      [] OTHER -> <<<<"a", 1>>, <<"b", RandomElement(2..9)>>, <<"c", 1>>, <<"d", RandomElement(5..20)>>>>)
NoCls == [on |-> FALSE, oui |-> <<>>, ic |-> -1, pc |-> -1, multi |-> FALSE]
RndCls(x) == IF Coin(1, 2) THEN NoCls
             ELSE [on |-> TRUE, oui |-> RndRaw(3), ic |-> Opt(RndBits(16), -1), pc |-> Opt(RndBits(16), -1), multi |-> FALSE]
RndTsi(x) == Pick(<<"", "", "none", "utc", "gps", "other", "any">>)
RndTsf(x) == Pick(<<"", "", "none", "samples", "picoseconds", "free-running", "any">>)

Base(name, kind) ==
  [ name |-> name, kind |-> kind, to |-> "", sid |-> "none", sidv |-> <<>>, sidparts |-> <<>>, clsid |-> RndCls(name),
    tsi |-> RndTsi(name), tsf |-> RndTsf(name), tsm |-> "", sot |-> "", ctee |-> "", cter |-> "", cam |-> <<>>,
    cif0 |-> NoCif, cif1 |-> NoCif, cif2 |-> NoCif, cif7 |-> [on |-> FALSE, f |-> <<>>],
    trailer |-> [on |-> FALSE, sf |-> "", user |-> <<>>] ]
WithSid(d, sid) == CASE sid = "word" -> [d EXCEPT !.sid = "word", !.sidv = Opt(RndRaw(4), <<>>)]
                     [] sid = "user" -> [d EXCEPT !.sid = "user", !.sidparts = RndSidParts(sid)]
                     [] OTHER -> d

\* user trailer members that fit below the sample frame bits when those are used
RndUser(room) ==
  Bind(RandomElement(1..5), LAMBDA c :
    CASE c = 1 -> <<<<"user_defined_a", "ind", 1>>>>
      [] c = 2 -> <<<<"user_defined_a", "ind", 1>>, <<"user_defined_b", "ind", 1>>>>
      [] c = 3 -> <<<<"user_defined_e", "enum", RandomElement(2..4)>>>>
      [] c = 4 -> IF room = 2 THEN <<<<"user_defined_e", "enum", 2>>, <<"user_defined_a", "ind", 1>>>>
                  ELSE <<<<"user_defined_a", "ind", 1>>, <<"user_defined_e", "enum", RandomElement(2..8)>>>>
      [] OTHER -> IF room = 2 THEN <<>>
                  ELSE <<<<"user_defined_e", "enum", RandomElement(2..4)>>, <<"user_defined_f", "enum", RandomElement(2..4)>>>>)
RndTrailer(x) ==
  IF Coin(1, 3) THEN [on |-> FALSE, sf |-> "", user |-> <<>>]
  ELSE Bind(Pick(<<"", "required", "optional">>), LAMBDA sf :
       [on |-> TRUE, sf |-> sf, user |-> IF Coin(1, 3) THEN <<>> ELSE RndUser(IF sf = "" THEN 4 ELSE 2)])

DataDef(nm) ==
  Bind(Base(nm, "data"), LAMBDA d : Bind(WithSid(d, Pick(<<"none", "word", "user">>)), LAMBDA e :
    [e EXCEPT !.sot = Pick(<<"", "time", "spectrum">>), !.trailer = RndTrailer(nm)]))
CtxDef(nm) ==
  Bind(Base(nm, Pick(<<"context", "xcontext">>)), LAMBDA d : Bind(WithSid(d, Pick(<<"word", "user">>)), LAMBDA e :
    [e EXCEPT !.tsm = Pick(<<"", "fine", "coarse", "any">>),
              !.cif0 = IF Coin(1, 6) THEN NoCif ELSE CifOf(RndCif(Cif0Table, {}, RandomElement({1, 3, 6}))),
              !.cif1 = IF Coin(1, 2) THEN NoCif ELSE CifOf(RndCif(Cif1Table, Ban1, RandomElement({1, 3, 6}))),
              !.cif2 = IF Coin(1, 2) THEN NoCif ELSE CifOf(RndCif(Cif2Table, {}, RandomElement({1, 3, 6})))]))
\* attributes: the current value and any others
RndAts(x) ==
  Bind(RandomElement({1, 3, 6}), LAMBDA dens :
    [on |-> TRUE, f |-> <<"current_value">> \o SelectSeq([i \in 1..(Len(Cif7Table) - 1) |-> Cif7Table[i + 1][1]], LAMBDA k : Coin(dens, 12))])
AttrDef(nm) ==
  Bind(CtxDef(nm), LAMBDA d : Bind(RndAts(nm), LAMBDA a :
    [d EXCEPT !.cif7 = a, !.cif0 = CifOf(RndCif(Cif0Table, {}, RandomElement({1, 3}))),
              !.cif1 = IF d.cif1.on THEN CifOf(RndCif(Cif1Table, Ban1, 1)) ELSE NoCif,
              !.cif2 = IF d.cif2.on THEN CifOf(RndCif(Cif2Table, {}, 1)) ELSE NoCif]))
\* the command mode options: requests, permissions, action
RndOpt(x) == Pick(<<"", "true", "required", "optional">>)
RndCam(x) ==
  Bind([q |-> Coin(1, 4), v |-> RndOpt(1), x |-> RndOpt(2), s |-> RndOpt(3), w |-> RndOpt(4), e |-> RndOpt(5),
        p |-> Opt("true", ""), pw |-> Opt("true", ""), pe |-> Opt("true", "")], LAMBDA c :
    IF c.q THEN <<<<"req_s", Pick(<<"true", "required">>)>>, <<"action_mode", "none">>>>
    ELSE SelectSeq(<<<<"action_mode", Pick(<<"execute", "execute", "dry-run", "dry-run", "">>)>>, <<"permit_partial", c.p>>, <<"permit_warnings", c.pw>>, <<"permit_errors", c.pe>>,
                     <<"req_v", c.v>>, <<"req_x", c.x>>, <<"req_s", c.s>>, <<"req_w", c.w>>, <<"req_er", c.e>>>>, LAMBDA y : y[2] # ""))
Wanted(k, cam) == \E i \in 1..Len(cam) : cam[i][1] \in k /\ IsOn(cam[i][2])
CtlDef(nm) ==
  Bind(Base(nm, Pick(<<"control", "control", "xcontrol">>)), LAMBDA d : Bind(WithSid(d, Pick(<<"word", "user">>)), LAMBDA e :
  Bind(RndCam(nm), LAMBDA cam : Bind(Opt(Pick(<<"word", "uuid">>), ""), LAMBDA ctee : Bind(Opt(Pick(<<"word", "uuid">>), ""), LAMBDA cter :
    \* the identifiers of the command prologue and those of CIF2 share their names
    LET ban == (IF ctee # "" THEN {"controllee_id"} ELSE {}) \cup (IF cter # "" THEN {"controller_id"} ELSE {})
        c0  == CifOf(RndCif(Cif0Table, {}, RandomElement({1, 3})))
    IN [e EXCEPT !.cam = cam, !.ctee = ctee, !.cter = cter,
              !.cif0 = IF Coin(1, 8) THEN NoCif ELSE c0,
              !.cif1 = IF Coin(1, 2) THEN NoCif ELSE CifOf(RndCif(Cif1Table, Ban1, RandomElement({1, 3}))),
              !.cif2 = IF Coin(1, 2) THEN NoCif ELSE CifOf(RndCif(Cif2Table, ban, RandomElement({1, 3})))])))))
AckDef(nm, c) ==
  Bind(Base(nm, IF c.kind = "xcontrol" THEN "xack" ELSE "ack"), LAMBDA d :
     [d EXCEPT !.to = c.name, !.clsid = NoCls, !.tsi = "", !.tsf = ""])
Acked(c) == Wanted({"req_v", "req_x", "req_s"}, c.cam)
\* what a file holds: "data", "ctx", "ctl", "attr" or "all"
What == IOEnv.WHAT
File(x) ==
  Bind(CtlDef("GenCtl"), LAMBDA c :
    (IF What = "attr" THEN <<AttrDef("GenAtt")>> ELSE <<>>) \o (IF What \in {"all", "data"} THEN <<DataDef("GenDat")>> ELSE <<>>)
    \o (IF What \in {"all", "ctx"} THEN <<CtxDef("GenCtx")>> ELSE <<>>)
    \o (IF What \in {"all", "ctl"} THEN <<c>> \o (IF Acked(c) THEN <<AckDef("GenCtlAck", c)>> ELSE <<>>) ELSE <<>>))
Init == n = 0
Next == n = 0 /\ n' = 1 /\ Emit([defs |-> File(n)])
Spec == Init /\ [][Next]_n
=============================================================================
