------------------------------ MODULE SysSchema ------------------------------
(* Documents for the parser, enumerated: every section of a packet on its own, *)
(* with every key and value the documentation names, the bounds of every       *)
(* number and length, and the nearest things it rules out.  Schema judges them *)
(* like any other document.                                                    *)
EXTENDS GenSchema

One(nm, tag, es) == <<En(nm, Sec(tag, es))>>
DataOf(es) == One("SysDat", "!Data", es)
CtxOf(es)  == One("SysCtx", "!Context", es)
XctxOf(es) == One("SysCtx", "!ExtensionContext", es)
CtlOf(es)  == One("SysCtl", "!Control", es)
Each1(sq, Ap(_)) == [i \in 1..Len(sq) |-> Ap(sq[i])]
Prod(a, b, Ap(_, _)) == Cat([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> Ap(a[i], b[j])]])
Opt1(k, v) == IF v = "" THEN <<>> ELSE <<En(k, IF v \in {"true", "false"} THEN Boo(v) ELSE Str(v))>>
Up(s, u) == [Str(s) EXCEPT !.up = u]

\* --- the command mode word: what may be asked for together ---------------------------
Cam1(es) == CtlOf(<<En("cam", Sec("!ControlAcknowledgeMode", es))>>)
Asked == <<"", "true", "false", "required", "optional">>
CamDocs ==
  Prod(<<"none", "", "dry-run", "execute">>, Asked, LAMBDA a, s : Cam1(Opt1("action_mode", a) \o Opt1("req_s", s)))
  \o Prod(<<"req_v", "req_x", "req_w", "req_er">>, Asked, LAMBDA k, v : Cam1(<<En("action_mode", Str("none")), En("req_s", Boo("true"))>> \o Opt1(k, v)))
  \o Prod(<<"true", "false">>, <<"true", "false">>, LAMBDA x, v : Cam1(<<En("req_x", Boo(x)), En("req_s", Str("required")), En("req_v", Boo(v)), En("action_mode", Str("none"))>>))
  \o Prod(<<"permit_partial", "permit_warnings", "permit_errors", "req_v", "req_x", "req_s", "req_w", "req_er">>, Asked \o <<"bogus", "8">>,
          LAMBDA k, v : Cam1(Opt1(k, v)))
  \o Each1(<<"ack_v", "partial_action", "nack_only", "req_e", "req_ver", "cam", "message_id">>, LAMBDA k : Cam1(<<En(k, Boo("true"))>>))

\* --- words of the standard, in every letter case --------------------------------------
Cased(Ap(_, _), ws) == Prod(ws, <<0, 1, 2, 3>>, LAMBDA w, u : Ap(w, u))
WordDocs ==
  Prod(<<"none", "utc", "gps", "other", "any">>, <<"none", "samples", "picoseconds", "free-running", "any">>,
       LAMBDA a, b : DataOf(<<En("timestamp", Map("!Timestamp", <<En("integer", Up(a, Rnd(0, 3))), En("fractional", Up(b, Rnd(0, 3)))>>))>>))
  \o Cased(LAMBDA w, u : CtxOf(<<En("timestamp", Map("!Timestamp", <<En("integer", Up(w, u))>>))>>), <<"none", "utc", "gps", "other", "any", "posix", "utcs", "ut">>)
  \o Cased(LAMBDA w, u : CtlOf(<<En("timestamp", Map("!Timestamp", <<En("fractional", Up(w, u))>>))>>),
           <<"none", "samples", "picoseconds", "free-running", "any", "sample", "free_running", "nanoseconds">>)
  \o Cased(LAMBDA w, u : CtxOf(<<En("tsm", Up(w, u))>>), <<"fine", "coarse", "any", "finer">>)
  \o Cased(LAMBDA w, u : DataOf(<<En("spectrum_or_time", Up(w, u))>>), <<"spectrum", "time", "times">>)
  \o Cased(LAMBDA w, u : CtlOf(<<En("controllee_id", Up(w, u)), En("controller_id", Up("word", 3 - u))>>), <<"word", "uuid", "words">>)
  \o Cased(LAMBDA w, u : Cam1(<<En("action_mode", Up(w, u)), En("req_s", Up("required", u))>>), <<"none", "dry-run", "execute", "dry_run", "executed", "dry">>)
  \o Cased(LAMBDA w, u : CtxOf(<<En("cif_0", Map("!CIF0", <<En("bandwidth", Up(w, u))>>))>>), <<"required", "optional", "disabled", "option", "optional-field">>)
  \o <<CtxOf(<<En("tsm", Boo("true"))>>), DataOf(<<En("tsm", Str("fine"))>>), CtlOf(<<En("tsm", Str("fine"))>>), CtxOf(<<En("spectrum_or_time", Str("time"))>>),
       DataOf(<<En("cam", Bare("!ControlAcknowledgeMode"))>>), CtxOf(<<En("cam", Bare("!ControlAcknowledgeMode"))>>), DataOf(<<En("cif_0", Bare("!CIF0"))>>),
       CtxOf(<<En("trailer", Bare("!Trailer"))>>), CtlOf(<<En("trailer", Bare("!Trailer"))>>), CtxOf(<<En("controllee_id", Str("word"))>>)>>

\* --- every context field ---------------------------------------------------------------
Tbl == <<Cif0Table, Cif1Table, Cif2Table>>
CifKey == <<"cif_0", "cif_1", "cif_2">>
CifTag == <<"!CIF0", "!CIF1", "!CIF2">>
FieldVal(k, m) == IF k = "index_list" THEN Map("!IndexList", <<En("entry_size", Whole(16))>>) ELSE Str(m)
NoList(t) == SelectSeq([i \in 1..Len(t) |-> t[i][1]], LAMBDA k : k \notin {"discrete_io_32", "discrete_io_64", "sector_step_scan"})
Whole1(c, m, tag) == One("SysCtx", tag, <<En(CifKey[c], Map(CifTag[c], [i \in 1..Len(NoList(Tbl[c])) |-> En(NoList(Tbl[c])[i], FieldVal(NoList(Tbl[c])[i], m))]))>>)
OneField(c, k, v) == CtxOf(<<En(CifKey[c], Map(CifTag[c], <<En(k, v)>>))>>)
CifDocs ==
  Prod(<<1, 2, 3>>, <<"required", "optional">>, LAMBDA c, m : Whole1(c, m, "!Context"))
  \o Prod(<<1, 2, 3>>, <<"required", "optional">>, LAMBDA c, m : Whole1(c, m, "!ExtensionContext"))
  \o Prod(<<1, 2, 3>>, <<"required", "optional">>, LAMBDA c, m : Whole1(c, m, "!Control"))
  \* each field where it belongs, and in the two other words
  \o Cat([c \in 1..3 |-> [i \in 1..Len(NoList(Tbl[c])) |-> OneField(c, NoList(Tbl[c])[i], FieldVal(NoList(Tbl[c])[i], IF (i \div 2) * 2 = i THEN "required" ELSE "optional"))]])
  \o Cat([c \in 1..3 |-> [i \in 1..Len(NoList(Tbl[c])) |-> OneField(IF c = 3 THEN 1 ELSE c + 1, NoList(Tbl[c])[i], Str("optional"))]])
  \o Each1(<<"1", "8", "16", "32", "64", "", "24">>, LAMBDA s : OneField(2, "index_list", Map("!IndexList", <<En("entry_size", Str(s))>>)))
  \o Each1(<<0, 1, 8, 15, 16, 24, 32, 33, 64>>, LAMBDA s : OneField(2, "index_list", Map("!IndexList", <<En("entry_size", Whole(s))>>)))
  \o <<OneField(2, "index_list", Bare("!IndexList")), OneField(2, "index_list", Map("!IndexList", <<En("size", Whole(8))>>)), OneField(2, "index_list", Str("required")),
       OneField(1, "reference_level", Map("!DIFI1p2ReferenceLevel", <<En("mode", Str("required"))>>)), OneField(2, "buffer_size", Map("!DIFI1p2BufferSize", <<En("mode", Str("optional"))>>)),
       OneField(1, "reference_level", Map("!DIFI1p2BufferSize", <<En("mode", Str("required"))>>)), OneField(1, "bandwidth", Map("!DIFI1p2ReferenceLevel", <<En("mode", Str("required"))>>))>>
  \o [i \in 1..Len(Cif7Table) |-> CtxOf(<<En("cif_0", Map("!CIF0", <<En("gain", Str("required"))>>)), En("cif_7", Map("!CIF7", <<En(Cif7Table[i][1], Str("required"))>>))>>)]
  \o <<CtxOf(<<En("cif_7", Map("!CIF7", [i \in 1..Len(Cif7Table) |-> En(Cif7Table[i][1], Str("required"))]))>>), CtxOf(<<En("cif_7", Map("!CIF7", <<En("max", Str("required"))>>))>>)>>
  \* extension or not: which words say that more than CIF0 is used
  \o Prod(<<"", "cif_1", "cif_2", "cif_7">>, <<"", "cif_0">>, LAMBDA k, z : CtxOf((IF k = "" THEN <<>> ELSE <<En(k, Bare(IF k = "cif_1" THEN "!CIF1" ELSE IF k = "cif_2" THEN "!CIF2" ELSE "!CIF7"))>>)
                                                                            \o (IF z = "" THEN <<>> ELSE <<En(z, Bare("!CIF0"))>>)))

\* --- stream identifiers ------------------------------------------------------------------
Parts(ws) == CtxOf(<<En("stream_id", Map("!StreamID", [i \in 1..Len(ws) |-> En("part" \o ToString(i), Map("!IntegerType", <<En("bits", Whole(ws[i]))>>))]))>>)
SidDocs ==
  Each1(<<<<1>>, <<31>>, <<32>>, <<33>>, <<0>>, <<16, 16>>, <<16, 17>>, <<1, 31>>, <<2, 31>>, <<31, 2>>, <<32, 1>>, <<8, 8, 8, 8>>, <<8, 8, 8, 9>>, <<8, 8, 8, 8, 1>>,
          <<1, 1, 1, 1, 1, 1>>, <<3, 5, 7, 11>>, <<3, 5, 7, 11, 6>>, <<3, 5, 7, 11, 7>>>>, Parts)
  \o Each1(<<Num(0, 0), Num(0, 1), Num(65535, 65535), Num(32768, 0), Num(4660, 22136), Num(65536, 0), Neg(1), Frac("1.0"), Boo("true"), Str("7")>>,
           LAMBDA x : DataOf(<<En("stream_id", [x EXCEPT !.tag = "!StreamID"])>>))
  \o <<DataOf(<<En("stream_id", Whole(4))>>), DataOf(<<En("stream_id", Str("required"))>>), DataOf(<<En("stream_id", Map("!StreamID", <<En("a", Whole(4))>>))>>),
       DataOf(<<En("stream_id", Map("!StreamID", <<En("a", Map("!IntegerType", <<En("bits", Whole(4)), En("width", Whole(4))>>))>>))>>),
       DataOf(<<En("stream_id", Map("!ClassID", <<En("packet_code", Whole(1))>>))>>)>>

\* --- class identifiers and codes ------------------------------------------------------------
Cls1(k, v) == CtxOf(<<En("class_id", Map("!ClassID", <<En(k, v)>>))>>)
Octs(s) == [Blank EXCEPT !.k = "o", !.e = [i \in 1..Len(s) |-> En(s[i], Blank)]]
Numbers == <<Num(0, 0), Num(0, 1), Num(0, 65535), Num(1, 0), Num(65535, 65535), Neg(1), Frac("3.0"), Boo("false"), Str("12"), Lst(<<Whole(1)>>)>>
Packed(es, info) == DataOf(es) \o <<En("SysInfo", Map("!InformationClass", info))>>
ClsDocs ==
  Prod(<<"packet_code", "information_code">>, Numbers, Cls1)
  \o Each1(<<<<"00", "00", "00">>, <<"ff", "ff", "ff">>, <<"00", "12", "a2">>, <<"00", "12", "a1">>, <<"00", "13", "a2">>, <<"12", "34">>, <<"12", "34", "56", "78">>, <<"1", "23", "45">>,
             <<"12", "34", "5g">>, <<"a0", "b1", "c2">>, <<"123", "45", "67">>>>, LAMBDA o : Cls1("oui", Octs(o)))
  \o <<Cls1("oui", Str("123456")), Cls1("oui", Whole(4660)), Cls1("oui", Str("12:34:56")), Cls1("pad_bits", Whole(0)), Cls1("code", Whole(1)), Cls1("class_id_enable", Boo("true"))>>
  \o Each1(Numbers, LAMBDA x : Packed(<<>>, <<En("code", x), En("packet_classes", Lst(<<Str("SysDat")>>))>>))
  \o Each1(<<<<>>, <<"SysDat", "SysDat">>, <<"Nobody">>, <<"SysInfo">>, <<"sysdat">>>>, LAMBDA ns : Packed(<<>>, <<En("code", Whole(7)), En("packet_classes", Lst([i \in 1..Len(ns) |-> Str(ns[i])]))>>))
  \o <<Packed(<<>>, <<En("code", Whole(7)), En("packet_classes", Lst(<<Str("SysDat")>>)), En("name", Str("x"))>>), Packed(<<>>, <<En("code", Whole(7)), En("packet_classes", Str("SysDat"))>>)>>

\* --- words laid out by the user ----------------------------------------------------------------
Deco(i, x) == En("part" \o ToString(i), CASE x[1] = "ind" -> Str("enable_indicator") [] x[1] = "bool" -> Str("bool") [] x[1] = "int" -> Whole(x[2]) [] OTHER -> ListOf("part" \o ToString(i), x[2]))
Dio1(nn, ds, m) == CtxOf(<<En("cif_1", Map("!CIF1", <<En("discrete_io_" \o nn, Map("!DiscreteIO" \o nn, (IF m = "" THEN <<>> ELSE <<En("mode", Str(m))>>) \o [i \in 1..Len(ds) |-> Deco(i, ds[i])]))>>))>>)
Ind == <<"ind", 0>>
Bit == <<"bool", 0>>
Wide(w) == <<"int", w>>
List0(w) == <<"enum", w>>
Times(x, c) == [i \in 1..c |-> x]
DioCases == <<<<Ind>>, <<Bit>>, <<Wide(32)>>, <<Wide(33)>>, <<Wide(31), Bit>>, <<Wide(31), Ind>>, <<Wide(31), Bit, Bit>>, Times(Ind, 16), Times(Ind, 17), Times(Bit, 32), Times(Bit, 33),
              <<Wide(30), Ind>>, <<List0(2), List0(3), List0(4), List0(5), List0(8), List0(9)>>, <<Wide(29), List0(7)>>, <<Wide(29), List0(5)>>, <<Bit, Wide(4), List0(6), Ind, Bit>>,
              <<Wide(0)>>, <<Wide(8), Wide(8), Wide(8), Wide(8)>>, <<Wide(32), Wide(32)>>, <<Wide(32), Wide(31), Bit>>, <<Wide(32), Wide(33)>>, <<Wide(32), Wide(32), Bit>>,
              <<Wide(16), Wide(16), Ind, List0(4), Wide(8)>>, Times(Ind, 32), Times(Ind, 33), <<Wide(64)>>, <<Wide(20), Wide(20)>>>>
TrCases == <<<<>>, <<Ind>>, Times(Ind, 2), Times(Ind, 3), Times(Ind, 4), Times(Ind, 5), <<List0(2)>>, <<List0(3)>>, <<List0(4)>>, <<List0(8)>>, <<List0(9)>>, <<List0(16)>>, <<List0(17)>>, <<List0(4), List0(4)>>,
             <<List0(8), Ind>>, <<Ind, List0(8)>>, <<Ind, List0(4), Ind>>, <<List0(5), List0(4)>>, <<List0(4), Ind, Ind>>, <<List0(4), Ind, Ind, Ind>>, <<List0(16), Ind>>, <<List0(1)>>>>
TrName == <<"user_defined_a", "user_defined_b", "user_defined_e", "user_defined_f", "user_defined1">>
TrEs(ds) == [i \in 1..Len(ds) |-> En(TrName[i], Deco(i, ds[i]).val)]
UserDocs ==
  Prod(<<"32", "64">>, DioCases, LAMBDA nn, ds : Dio1(nn, ds, "optional"))
  \o Each1(<<"", "required", "optional", "enabled">>, LAMBDA m : Dio1("32", <<Ind, Wide(3)>>, m))
  \o Prod(<<"", "required", "optional">>, TrCases, LAMBDA sf, ds : DataOf(<<En("trailer", Sec("!Trailer", Says1("sample_frame", sf) \o TrEs(ds)))>>))
  \o <<CtxOf(<<En("cif_1", Map("!CIF1", <<En("discrete_io_32", Map("!DiscreteIO64", <<En("a", Str("bool"))>>))>>))>>),
       DataOf(<<En("trailer", Map("!Trailer", <<En("user_defined_a", Str("bool"))>>))>>), DataOf(<<En("trailer", Map("!Trailer", <<En("valid_data", Str("optional"))>>))>>),
       DataOf(<<En("trailer", Map("!Trailer", <<En("user_defined_a", Whole(2))>>))>>)>>

\* --- what answers what -------------------------------------------------------------------------
Ctl2 == <<En("SysCtl", Map("!Control", <<En("cam", Map("!ControlAcknowledgeMode", <<En("req_v", Boo("true")), En("req_s", Str("optional"))>>)), En("cif_0", Map("!CIF0", <<En("gain", Str("optional"))>>)),
                                          En("cif_2", Map("!CIF2", <<En("bind", Str("required"))>>))>>))>>
Ack2(to) == <<En("SysAck", Map("!Ack", <<En("responds_to", to)>>))>>
AckDocs ==
  Each1(<<Str("SysCtl"), Str("SysAck"), Str("SysCtx"), Str("Nobody"), Up("SysCtl", 1), Lst(<<Str("SysCtl")>>), Boo("true"), Whole(1)>>,
        LAMBDA to : Ctl2 \o CtxOf(<<>>) \o Ack2(to))
  \o Each1(<<Str("SysCtl"), Str("SysCtx")>>, LAMBDA to : Ack2(to) \o CtxOf(<<>>) \o Ctl2)
  \o <<Ctl2 \o <<En("SysAck", Bare("!Ack"))>>, Ctl2 \o Ack2(Str("SysCtl")) \o <<En("SysAckB", Map("!Ack", <<En("responds_to", Str("SysCtl"))>>))>>>>
  \o Prod(Asked, Asked, LAMBDA v, s : CtlOf(<<En("cam", Sec("!ControlAcknowledgeMode", Opt1("req_v", v) \o Opt1("req_s", s))), En("cif_1", Map("!CIF1", <<En("range", Str("optional")), En("aux_gain", Str("required"))>>))>>)
                                      \o Ack2(Str("SysCtl")))
  \o Prod(Asked, Asked, LAMBDA x, w : CtlOf(<<En("cam", Sec("!ControlAcknowledgeMode", Opt1("req_x", x) \o Opt1("req_w", w) \o Opt1("req_er", w))), En("cif_0", Bare("!CIF0"))>>) \o Ack2(Str("SysCtl")))

Docs == CamDocs \o WordDocs \o CifDocs \o SidDocs \o ClsDocs \o UserDocs \o AckDocs
Stepwise(own) ==
  \E w1 \in {[own |-> own, inc |-> <<>>]} : \E w2 \in {[own |-> WriteFile(own), inc |-> <<>>]} :
    \E m \in {Meaning(own, <<>>)} :
      /\ Assert(Meaning(w2.own, <<>>) = m, <<"meaning depends on the way of writing", own, w2>>)
      /\ IF m.v = 2 THEN TRUE ELSE Emit([v |-> m.v, plain |-> own, pinc |-> <<>>, one |-> w1, two |-> w2, facts |-> SetToSeq(m.f), info |-> SetToSeq(m.i)])
\* the list is drawn up once
Enumerate == read = 0 /\ last = <<>> /\ last' = Docs /\ UNCHANGED <<n, read>>
Judge == read < Len(last) /\ read' = read + 1 /\ Stepwise(last[read + 1]) /\ UNCHANGED <<n, last>>
SysSpec == Sinit /\ [][Enumerate \/ Judge]_<<n, read, last>>
=============================================================================
