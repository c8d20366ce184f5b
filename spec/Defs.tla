-------------------------------- MODULE Defs --------------------------------
(* What a YAML packet definition means: from the abstract definition (one    *)
(* JSON object, rendered to YAML by the harness) to the shape of the packet   *)
(* class: its fixed header bits, sections, indicator words and fields.        *)
(* This derivation is the oracle for the code generator; it is written from   *)
(* the documentation and the VITA 49.2 rules, not from the generator.         *)
EXTENDS Fields

TsiOf(s) == CASE s = "utc" -> 1 [] s = "gps" -> 2 [] s = "other" -> 3 [] OTHER -> 0
TsfOf(s) == CASE s = "samples" -> 1 [] s = "picoseconds" -> 2 [] s = "free-running" -> 3 [] OTHER -> 0
HasTs(s) == s # "" /\ s # "none"

\* --- command control word ----------------------------------------------------
CamBits == <<M("controllee_enable",31,1), M("controllee_format",30,1), M("controller_enable",29,1),
             M("controller_format",28,1), M("permit_partial",27,1), M("permit_warnings",26,1),
             M("permit_errors",25,1), M("action_mode",24,2), M("nack_only",22,1),
             M("v",20,1), M("x",19,1), M("s",18,1), M("w",17,1), M("er",16,1),
             M("timing_control",14,3), M("partial_action",11,1), M("scheduled_or_executed",10,1)>>
CamNames == {CamBits[i].m : i \in 1..Len(CamBits)}

\* the option given for key k in the definition's cam mapping ("" when absent)
CamOpt(d, k) == LET S == {i \in 1..Len(d.cam) : d.cam[i][1] = k} IN IF S = {} THEN "" ELSE d.cam[CHOOSE i \in S : TRUE][2]
IsTrue(o) == o \in {"true", "required"}
IsOn(o)   == o \in {"true", "required", "optional"}
ActionOf(o) == CASE o = "execute" -> 2 [] o = "dry-run" -> 1 [] OTHER -> 0

ControlCam(d) ==
  [k \in CamNames |->
    CASE k = "controllee_enable" -> IF d.ctee # "" THEN 1 ELSE 0
      [] k = "controllee_format" -> IF d.ctee = "uuid" THEN 1 ELSE 0
      [] k = "controller_enable" -> IF d.cter # "" THEN 1 ELSE 0
      [] k = "controller_format" -> IF d.cter = "uuid" THEN 1 ELSE 0
      [] k \in {"permit_partial", "permit_warnings", "permit_errors"} -> IF IsTrue(CamOpt(d, k)) THEN 1 ELSE 0
      [] k = "action_mode" -> ActionOf(CamOpt(d, k))
      [] k \in {"v","x","s","w","er"} -> IF IsTrue(CamOpt(d, "req_" \o k)) THEN 1 ELSE 0
      [] OTHER -> 0]

\* --- user-defined discrete I/O and trailer words -------------------------------
\* bits needed by an enumeration of n names
CeilLog2(n) == CHOOSE b \in 0..16 : P2[b] >= n /\ (b = 0 \/ P2[b-1] < n)

\* members of a discrete I/O word of the given declarations; returns parts for 32/64 bit.
\* declarations: <<name, kind, n>> with kind bool | ind | int | enum
DioWidth(x) == CASE x[2] = "bool" -> 1 [] x[2] = "ind" -> 2 [] x[2] = "int" -> x[3]
                 [] x[2] = "enum" -> (x[3] + 1) \div 2
RECURSIVE DioMembers(_, _)
DioMembers(xs, pos) ==
  IF xs = <<>> THEN <<>>
  ELSE LET x == Head(xs)
           w == DioWidth(x)
           ms == CASE x[2] = "ind" -> <<M(x[1], pos, 1), M(x[1] \o "_enable", pos + 1, 1)>>
                   [] x[2] = "enum" -> <<[M(x[1], pos + w - 1, w) EXCEPT !.b = 0] @@ [lim |-> x[3] - 1]>>
                   [] OTHER -> <<M(x[1], pos + w - 1, w)>>
       IN ms \o DioMembers(Tail(xs), pos + w)
\* a 64-bit discrete I/O word is two 32-bit words, the second holding bits 31..0;
\* definitions keep members inside one half (see README of definitions)
DioParts(nbits, xs) ==
  LET ms == DioMembers(xs, 0)
      low == SelectSeq(ms, LAMBDA m : m.hi < 32)
      high == SelectSeq(ms, LAMBDA m : m.hi >= 32)
      shift(m) == [m EXCEPT !.hi = @ - 32]
  IN IF nbits = 32 THEN <<W(low)>>
     ELSE <<W([i \in 1..Len(high) |-> shift(high[i])]), W(low)>>

\* user members of a trailer: <<name, kind, n>> with kind ind | enum
TrWidth(x) == IF x[2] = "ind" THEN 1 ELSE CeilLog2(x[3])
RECURSIVE TrMembers(_, _)
TrMembers(xs, pos) ==
  IF xs = <<>> THEN <<>>
  ELSE LET x == Head(xs)
           w == TrWidth(x)
           m == MP(x[1], pos + w - 1, w, pos + w - 1 + 12, w)
       IN <<IF x[2] = "enum" THEN m @@ [lim |-> x[3] - 1] ELSE m>> \o TrMembers(Tail(xs), pos + w)
TrailerParts(tr) ==
  IF tr.user = <<>> THEN TypeDefs["Trailer"]
  ELSE <<W((IF tr.sf # "" THEN <<MP("sample_frame",11,2,23,2)>> ELSE <<>>) \o TrMembers(tr.user, 8))>>

\* user-defined stream identifier: constituents fill from bit 0 upwards
RECURSIVE SidMembers(_, _)
SidMembers(xs, pos) ==
  IF xs = <<>> THEN <<>> ELSE <<M(Head(xs)[1], pos + Head(xs)[2] - 1, Head(xs)[2])>> \o SidMembers(Tail(xs), pos + Head(xs)[2])

\* --- context fields ------------------------------------------------------------
TyOf(base, f) ==
  CASE base = "dio32" -> (IF f.dio = <<>> THEN T("u32") ELSE [t |-> "user", parts |-> DioParts(32, f.dio)])
    [] base = "dio64" -> (IF f.dio = <<>> THEN T("u64") ELSE [t |-> "user", parts |-> DioParts(64, f.dio)])
    [] f.x = "difi" /\ f.n = "reference_level" -> T("DIFIReferenceLevel")
    [] f.x = "difi" /\ f.n = "buffer_size" -> T("DIFIBufferSize")
    [] f.n = "index_list" -> T("IndexList" \o (IF f.x = "" THEN "8" ELSE f.x))
    [] OTHER -> T(base)

\* the fields the definition enables in indicator word g, in wire order
FieldsOf(tbl, fs, g) ==
  LET on == SelectSeq(tbl, LAMBDA r : \E i \in 1..Len(fs) : fs[i].n = r[1])
      decl(r) == fs[CHOOSE i \in 1..Len(fs) : fs[i].n = r[1]]
  IN [i \in 1..Len(on) |-> [k |-> on[i][1], g |-> g, bit |-> on[i][2],
                            req |-> decl(on[i]).mode = "required", ty |-> TyOf(on[i][3], decl(on[i]))]]

IsCtx(d)  == d.kind \in {"context", "xcontext"}
IsCtl(d)  == d.kind \in {"control", "xcontrol"}
IsAck(d)  == d.kind \in {"ack", "xack"}
\* the other indicator words are announced in CIF0
Has0(d) == IsCtx(d) \/ d.kind = "control" \/ d.cif0.on \/ d.cif1.on \/ d.cif2.on \/ d.cif7.on
AllFields(d) == FieldsOf(Cif0Table, d.cif0.f, 1) \o FieldsOf(Cif1Table, d.cif1.f, 2) \o FieldsOf(Cif2Table, d.cif2.f, 3)
GMode(c, fs, g) ==
  IF ~c.on THEN "none"
  ELSE LET mine == SelectSeq(fs, LAMBDA f : f.g = g)
       IN IF mine # <<>> /\ \A i \in 1..Len(mine) : ~mine[i].req THEN "dyn" ELSE "always"

Shape0(d) ==
  [ name |-> d.name, cls |-> d.name, kind |-> d.kind,
    ptype |-> CASE d.kind = "data" -> (IF d.sid = "none" THEN 0 ELSE 1)
                [] d.kind = "context" -> 4 [] d.kind = "xcontext" -> 5
                [] d.kind \in {"control", "ack"} -> 6 [] OTHER -> 7,
    b26 |-> IF d.kind = "data" /\ d.trailer.on THEN 1 ELSE IF IsAck(d) THEN 1 ELSE 0,
    b25 |-> IF d.kind = "data" THEN (IF d.sot = "spectrum" \/ (d.trailer.on /\ d.trailer.sf # "") THEN 1 ELSE 0)
            ELSE IF IsCtx(d) /\ (d.cif1.on \/ d.cif2.on \/ d.cif7.on) THEN 1 ELSE 0,
    b24 |-> IF d.kind = "data" THEN (IF d.sot = "spectrum" THEN 1 ELSE 0)
            ELSE IF IsCtx(d) /\ d.tsm = "coarse" THEN 1 ELSE 0,
    tsmany |-> d.tsm = "any", tsiany |-> d.tsi = "any", tsfany |-> d.tsf = "any",
    tsi |-> TsiOf(d.tsi), tsf |-> TsfOf(d.tsf), its |-> HasTs(d.tsi), fts |-> HasTs(d.tsf),
    sid |-> IF d.kind = "data" THEN d.sid ELSE IF d.sid = "none" THEN "word" ELSE d.sid,
    sidv |-> IF d.sidv = <<>> THEN Zeros(4) ELSE d.sidv,
    sidty |-> [t |-> "user", parts |-> <<W(SidMembers(d.sidparts, 0))>>],
    hascls |-> d.clsid.on, oui |-> IF d.clsid.oui = <<>> THEN Zeros(3) ELSE d.clsid.oui,
    ic |-> IF d.clsid.ic < 0 THEN 0 ELSE d.clsid.ic, pc |-> IF d.clsid.pc < 0 THEN 0 ELSE d.clsid.pc,
    icmulti |-> d.clsid.multi,
    command |-> IsCtl(d) \/ IsAck(d), cam |-> ControlCam(d),
    camset |-> IF IsCtl(d) THEN [i \in 1..Len(SelectSeq(<<"v","x","s">>, LAMBDA k : CamOpt(d, "req_" \o k) = "optional")) |->
                                   SelectSeq(<<"v","x","s">>, LAMBDA k : CamOpt(d, "req_" \o k) = "optional")[i]] \o <<"timing_control">>
               ELSE <<>>,
    \* command mode members whose value the definition fixes
    camfix |-> IF ~(IsCtl(d) \/ IsAck(d)) THEN <<>>
               ELSE SelectSeq([i \in 1..Len(CamBits) |-> CamBits[i].m],
                      LAMBDA k : CASE k \in {"controllee_enable", "controllee_format"} -> d.ctee # ""
                                   [] k \in {"controller_enable", "controller_format"} -> d.cter # ""
                                   [] k \in {"permit_partial", "permit_warnings", "permit_errors"} -> IsTrue(CamOpt(d, k))
                                   [] k = "action_mode" -> CamOpt(d, k) # ""
                                   [] k \in {"v","x","s","w","er"} -> IsTrue(CamOpt(d, "req_" \o k))
                                   [] OTHER -> FALSE),
    ctee |-> d.ctee, cter |-> d.cter,
    has0 |-> Has0(d), g1 |-> GMode(d.cif1, AllFields(d), 2), g2 |-> GMode(d.cif2, AllFields(d), 3),
    vx |-> FALSE, query |-> IsCtl(d) /\ ActionOf(CamOpt(d, "action_mode")) = 0,   \* none is also the default
    fields |-> AllFields(d), warn |-> FALSE, err |-> FALSE,
    c7 |-> IF d.cif7.on THEN SelectSeq(Cif7Table, LAMBDA r : \E i \in 1..Len(d.cif7.f) : d.cif7.f[i] = r[1]) ELSE <<>>,
    has7 |-> d.cif7.on,
    \* the attributes that follow each field, in wire order: name and format ("": the field's own);
    \* the current value is the field itself
    at7 |-> IF ~d.cif7.on \/ (IsCtl(d) /\ ActionOf(CamOpt(d, "action_mode")) = 0) THEN <<>>
            ELSE LET ns == SelectSeq(Cif7Table, LAMBDA r : r[1] # "current_value" /\ \E i \in 1..Len(d.cif7.f) : d.cif7.f[i] = r[1])
                 IN [i \in 1..Len(ns) |-> [k |-> ns[i][1], t |-> CASE ns[i][1] = "probability" -> "Probability"
                                                                   [] ns[i][1] = "belief" -> "Belief" [] OTHER -> ""]],
    data |-> d.kind = "data", trailer |-> d.kind = "data" /\ d.trailer.on,
    trty |-> [t |-> "user", parts |-> IF d.kind = "data" THEN TrailerParts(d.trailer) ELSE <<>>],
    truser |-> d.kind = "data" /\ d.trailer.on /\ (d.trailer.user # <<>>) ]

\* --- acknowledgements: everything comes from the control definition c ------------
WeifFields(d, side, g0) ==
  LET fs == AllFields(d)
  IN [i \in 1..Len(fs) |-> [k |-> fs[i].k \o side, g |-> g0 + fs[i].g, bit |-> fs[i].bit, req |-> FALSE,
                            ty |-> T("WarningErrorFields")]]
ReqOn(c, k) == IsOn(CamOpt(c, "req_" \o k))
AckBase(a, c) ==
  LET s == Shape0(c)
      camopt == <<"timing_control", "partial_action", "scheduled_or_executed">>
  IN [s EXCEPT !.name = a.name, !.kind = a.kind, !.b26 = 1, !.b25 = 0, !.b24 = 0,
               !.ptype = IF a.kind = "xack" THEN 7 ELSE 6, !.query = FALSE,
               !.camset = camopt, !.camfix = SelectSeq(s.camfix, LAMBDA k : k \notin {"v","x","s","w","er"}),
               !.cam = [k \in CamNames |-> IF k \in {"v","x","s","w","er"} THEN 0 ELSE s.cam[k]]]
AckVX(a, c) ==
  LET w == IsTrue(CamOpt(c, "req_w"))
      e == IsTrue(CamOpt(c, "req_er"))
  IN [AckBase(a, c) EXCEPT !.cls = a.name \o "VX", !.vx = TRUE, !.has0 = FALSE, !.g1 = "none", !.g2 = "none",
        !.has7 = FALSE, !.c7 = <<>>, !.at7 = <<>>,
        !.warn = w, !.err = e,
        !.camset = @ \o SelectSeq(<<"v","x">>, LAMBDA k : ReqOn(c, k)),
        !.fields = (IF w THEN WeifFields(c, "_warnings", 0) ELSE <<>>) \o (IF e THEN WeifFields(c, "_errors", 3) ELSE <<>>)]
AckS(a, c) == [AckBase(a, c) EXCEPT !.cls = a.name \o "S", !.cam = [@ EXCEPT !["s"] = 1], !.camfix = @ \o <<"s">>]

\* --- what a class must not offer ------------------------------------------------
\* readers of what its definition does not enable, writers of what it fixes
FieldNames == Cat([c \in 1..3 |-> [i \in 1..Len(CifTables[c]) |-> CifTables[c][i][1]]])
If(b, s) == IF b THEN s ELSE <<>>
Closed(sh) ==
  LET names == {sh.fields[i].k : i \in 1..Len(sh.fields)}
      ids   == If(sh.ctee # "", <<"controllee_id">>) \o If(sh.cter # "", <<"controller_id">>)
      offn  == SelectSeq(FieldNames, LAMBDA n : n \notin names /\ n \notin Range(ids))
      gate(n, q) == If(~q, <<n>>)
      reqs  == SelectSeq(<<"v", "x", "s", "w", "er">>, LAMBDA k : k \notin Range(sh.camset))
      resp  == If(sh.command, Cat([i \in 1..Len(FieldNames) |->
                  SelectSeq(<<FieldNames[i] \o "_warnings", FieldNames[i] \o "_errors">>, LAMBDA n : n \notin names)]))
  IN [get |-> offn \o gate("integer_timestamp", sh.its) \o gate("fractional_timestamp", sh.fts) \o gate("stream_id", sh.sid # "none")
              \o gate("cam", sh.command) \o gate("message_id", sh.command) \o gate("payload", sh.data) \o gate("trailer", sh.trailer)
              \o resp
              \o If(~sh.query, [i \in 1..Len(sh.fields) |-> sh.fields[i].k \o "_enabled"])
              \o If(sh.query, [i \in 1..Len(sh.fields) |-> sh.fields[i].k]),
      set |-> offn \o gate("tsm", sh.tsmany) \o gate("tsi", sh.tsiany) \o gate("tsf", sh.tsfany)
              \o gate("information_code", sh.hascls /\ sh.icmulti)
              \o [i \in 1..Len(reqs) |-> "req_" \o reqs[i]] \o [i \in 1..Len(reqs) |-> "ack_" \o reqs[i]],
      reset |-> offn \o LET r == SelectSeq(sh.fields, LAMBDA f : f.req) IN [i \in 1..Len(r) |-> r[i].k]]

\* --- information classes ----------------------------------------------------------
\* A file with information classes gives rise to the packets they list, each carrying the
\* information code of the class that lists it; a packet listed by several carries any
Infos(ds) == SelectSeq(ds, LAMBDA d : d.kind = "info")
Listing(ds, nm) == SelectSeq(Infos(ds), LAMBDA x : nm \in Range(x.packets))
Resolve(ds, d) ==
  LET ls == Listing(ds, d.name)
  IN IF ls = <<>> THEN d
     ELSE [d EXCEPT !.clsid.ic = ls[1].code, !.clsid.multi = Cardinality({ls[i].code : i \in 1..Len(ls)}) > 1]
RECURSIVE Once(_)
Once(sq) == IF sq = <<>> THEN <<>> ELSE LET r == Once(Front(sq)) IN IF Last(sq) \in Range(r) THEN r ELSE Append(r, Last(sq))
Generated(ds) ==
  IF Infos(ds) = <<>> THEN ds
  ELSE LET nm == Once(Cat([i \in 1..Len(Infos(ds)) |-> Infos(ds)[i].packets]))
       IN [i \in 1..Len(nm) |-> Resolve(ds, ds[CHOOSE j \in 1..Len(ds) : ds[j].name = nm[i]])]

\* the classes a file of definitions gives rise to
ShapesOf(file) ==
  LET ds == Generated(file)
      one(i) == LET d == ds[i]
                IN IF ~IsAck(d) THEN <<Shape0(d)>>
                   ELSE LET c == Resolve(file, file[CHOOSE j \in 1..Len(file) : file[j].name = d.to])
                        IN (IF ReqOn(c, "v") \/ ReqOn(c, "x") THEN <<AckVX(d, c)>> ELSE <<>>)
                           \o (IF ReqOn(c, "s") THEN <<AckS(d, c)>> ELSE <<>>)
      all == Cat([i \in 1..Len(ds) |-> one(i)])
  IN [i \in 1..Len(all) |-> all[i] @@ [gidx |-> [g \in 1..6 |-> SelectSeq([j \in 1..Len(all[i].fields) |-> j],
                                                                    LAMBDA j : all[i].fields[j].g = g)]]]
=============================================================================
