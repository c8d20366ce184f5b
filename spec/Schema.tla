------------------------------- MODULE Schema -------------------------------
(* The definition language: which YAML documents are definition files, and    *)
(* what an accepted one says.  A document is a tree of nodes; Verdict judges   *)
(* it, Read gives the abstract definitions (Defs) it stands for, and Facts     *)
(* what the parsed model has to say about each of them.                        *)
EXTENDS Defs

\* --- nodes -------------------------------------------------------------------------
\* k: s text, i whole number (hi * 65536 + lo), b truth value, f fraction, m mapping,
\*    q list, t bare tag, o identifier octets; up: letter case the text is written in
Blank == [k |-> "s", tag |-> "", v |-> "", up |-> 0, hi |-> 0, lo |-> 0, neg |-> FALSE, e |-> <<>>]
Str(s) == [Blank EXCEPT !.v = s]
Num(h, l) == [Blank EXCEPT !.k = "i", !.hi = h, !.lo = l]
Whole(x) == Num(0, x)
Neg(x) == [Num(0, x) EXCEPT !.neg = TRUE]
Boo(s) == [Blank EXCEPT !.k = "b", !.v = s]
Frac(s) == [Blank EXCEPT !.k = "f", !.v = s]
En(k, v) == [key |-> k, val |-> v]
Map(tag, es) == [Blank EXCEPT !.k = "m", !.tag = tag, !.e = es]
Bare(tag) == [Blank EXCEPT !.k = "t", !.tag = tag]
Lst(ns) == [Blank EXCEPT !.k = "q", !.e = [i \in 1..Len(ns) |-> En("", ns[i])]]
\* a tagged section may be left without content
Sec(tag, es) == IF es = <<>> THEN Bare(tag) ELSE Map(tag, es)
Keys(n) == {n.e[i].key : i \in 1..Len(n.e)}
At(n, k) == n.e[CHOOSE i \in 1..Len(n.e) : n.e[i].key = k].val
Vals(n) == [i \in 1..Len(n.e) |-> n.e[i].val]
IsSec(n, tag) == n.tag = tag /\ n.k \in {"m", "t"}

\* --- verdicts: 0 allowed, 1 not allowed, 2 the documentation does not say ------------
Worst(sq) == LET s == Range(sq) IN IF 1 \in s THEN 1 ELSE IF 2 \in s THEN 2 ELSE 0
Ok(b) == IF b THEN 0 ELSE 1
Open(b) == IF b THEN 0 ELSE 2
\* one of the words of set, in whatever letter case
Among(n, set) == Ok(n.k = "s" /\ n.tag = "" /\ n.v \in set)
Exact(n, set) == Ok(n.k = "s" /\ n.tag = "" /\ n.v \in set /\ n.up = 0)
Mode(n) == Among(n, {"required", "optional"})
Within(n, top) == n.k = "i" /\ ~n.neg /\ n.hi <= top
Plain(n) == n.tag = ""
Code(n) == Ok(n.k = "i" /\ Plain(n) /\ ~n.neg /\ n.hi = 0)
\* every entry of a mapping judged by J(key, value)
Each(n, J(_, _)) == Worst([i \in 1..Len(n.e) |-> J(n.e[i].key, n.e[i].val)])
Distinct(sq) == Cardinality(Range(sq)) = Len(sq)

\* --- sections --------------------------------------------------------------------------
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexPair == [i \in 0..255 |-> LET d == i \div 16 IN HexDigits[d + 1] \o HexDigits[(i - 16 * d) + 1]]
HexOf(s) == IF \E i \in 0..255 : HexPair[i] = s THEN CHOOSE i \in 0..255 : HexPair[i] = s ELSE -1
\* three octets; one identifier is set aside for the standard's own extension classes
Oui(n) == Ok(n.k = "o" /\ Len(n.e) = 3 /\ (\A i \in 1..Len(n.e) : HexOf(n.e[i].key) >= 0)
             /\ [i \in 1..Len(n.e) |-> n.e[i].key] # <<"00", "12", "a2">>)
ClassId(n) ==
  IF n.tag # "!ClassID" \/ n.k # "m" THEN 1
  ELSE IF n.e = <<>> THEN 2
  ELSE Each(n, LAMBDA k, v : CASE k = "oui" -> Oui(v) [] k \in {"packet_code", "information_code"} -> Code(v) [] OTHER -> 1)
TsiWords == {"none", "utc", "gps", "other", "any"}
TsfWords == {"none", "samples", "picoseconds", "free-running", "any"}
Ts(n) == IF ~IsSec(n, "!Timestamp") THEN 1
         ELSE Each(n, LAMBDA k, v : CASE k = "integer" -> Among(v, TsiWords) [] k = "fractional" -> Among(v, TsfWords) [] OTHER -> 1)
IntTy(n) ==
  IF ~IsSec(n, "!IntegerType") THEN 1
  ELSE IF Keys(n) = {} THEN 2
  ELSE Each(n, LAMBDA k, v : CASE k = "bits" -> (IF v.k = "s" /\ Plain(v) THEN 2 ELSE Ok(v.k = "i" /\ Plain(v) /\ ~v.neg /\ v.hi = 0 /\ v.lo \in 1..32))
                               [] k = "value" -> 2 [] OTHER -> 1)
PartBits(n) == IF "bits" \in Keys(n) THEN At(n, "bits").lo ELSE 1
SumBits(sq, Wd(_)) == FoldSeq(LAMBDA x, a : a + Wd(x), 0, sq)
\* members named like the generator's own attributes
OwnWords == {"type_", "name", "bits", "enabled", "required", "user_defined", "template_type", "reserved_bits", "packed_tag", "packet_name",
             "packed", "packed_0", "value", "fields", "subfields"}
Sid(n) ==
  IF n.tag # "!StreamID" THEN 1
  ELSE CASE n.k = "t" -> 0
         [] n.k = "i" -> Ok(Within(n, 65535))
         [] n.k = "s" /\ n.v \in {"7", "8"} -> 2       \* a number in quotes
         [] n.k = "m" -> IF n.e = <<>> THEN 2
                         ELSE LET w == Worst([i \in 1..Len(n.e) |-> IntTy(n.e[i].val)] \o <<Open(Keys(n) \cap OwnWords = {})>>)
                              IN IF w # 0 THEN w ELSE Ok(SumBits(Vals(n), PartBits) <= 32)
         [] OTHER -> 1

\* --- discrete I/O ------------------------------------------------------------------------
Names0(n) == [i \in 1..Len(n.e) |-> n.e[i].val.v]
NameList(n) == /\ n.k = "q" /\ Plain(n)
               /\ \A i \in 1..Len(n.e) : n.e[i].val.k = "s" /\ Plain(n.e[i].val)
DioDecl(k, v) == CASE v.k = "s" /\ v.v = "bool" -> <<k, "bool", 1>>
                   [] v.k = "s" /\ v.v = "enable_indicator" -> <<k, "ind", 1>>
                   [] v.k = "i" -> <<k, "int", v.lo>>
                   [] OTHER -> <<k, "enum", Len(v.e)>>
DioEntries(n) == SelectSeq(n.e, LAMBDA x : x.key # "mode")
DioDecls(n) == LET xs == DioEntries(n) IN [i \in 1..Len(xs) |-> DioDecl(xs[i].key, xs[i].val)]
RECURSIVE Straddles(_, _)
Straddles(xs, pos) == IF xs = <<>> THEN FALSE
  ELSE LET w == DioWidth(Head(xs)) IN (pos < 32 /\ pos + w > 32) \/ Straddles(Tail(xs), pos + w)
Dio(n, bits) ==
  LET w == Each(n, LAMBDA k, v :
             IF k = "mode" THEN Mode(v)
             ELSE CASE v.k = "i" -> Ok(Plain(v) /\ ~v.neg /\ v.hi = 0 /\ v.lo >= 1)
                    [] v.k = "q" -> IF v.e = <<>> THEN 1 ELSE IF ~NameList(v) THEN 1
                                    ELSE IF ~Distinct(Names0(v)) THEN 2 ELSE 0
                    [] OTHER -> Exact(v, {"bool", "enable_indicator"}))
      sum == SumBits(DioDecls(n), DioWidth)
  IN IF w = 1 THEN 1
     ELSE IF w = 0 /\ sum > bits THEN 1
     ELSE IF n.k = "t" \/ Keys(n) \cap OwnWords # {} THEN 2
     ELSE IF w = 0 /\ Straddles(DioDecls(n), 0) THEN 2
     ELSE IF w = 0 /\ \E i \in 1..Len(DioDecls(n)) : DioDecls(n)[i][2] = "enum" /\ DioDecls(n)[i][3] < 2 THEN 2
     ELSE w
\* a mode given by name, or the DIFI form of the field with its own mode
Moded(n, tag) == IF IsSec(n, tag)
                 THEN IF n.k = "t" \/ n.e = <<>> THEN 2
                      ELSE Each(n, LAMBDA k, v : IF k = "mode" THEN Mode(v) ELSE 1)
                 ELSE Mode(n)

\* --- indicator words -----------------------------------------------------------------------
NamesOf(tbl) == {tbl[i][1] : i \in 1..Len(tbl)}
Fld(k, v) ==
  CASE k = "reference_level" -> Moded(v, "!DIFI1p2ReferenceLevel")
    [] k = "buffer_size" -> Moded(v, "!DIFI1p2BufferSize")
    [] k = "discrete_io_32" -> IF IsSec(v, "!DiscreteIO32") THEN Dio(v, 32) ELSE Mode(v)
    [] k = "discrete_io_64" -> IF IsSec(v, "!DiscreteIO64") THEN Dio(v, 64) ELSE Mode(v)
    [] k = "index_list" -> IF ~IsSec(v, "!IndexList") THEN 1
                           ELSE Each(v, LAMBDA kk, x : IF kk # "entry_size" THEN 1
                                  ELSE Ok(Plain(x) /\ ((x.k = "i" /\ ~x.neg /\ x.hi = 0 /\ x.lo \in {8, 16, 32}) \/ (x.k = "s" /\ x.v \in {"8", "16", "32"}))))
    [] k = "sector_step_scan" -> IF IsSec(v, "!SectorStepScan") THEN 2 ELSE 1
    [] OTHER -> Mode(v)
\* words whose meaning the documentation leaves open
Unsettled == {"change_indicator", "pointing_vector_structure", "spatial_reference_type", "array_of_cifs"}
Cif(n, tag, tbl) ==
  IF ~IsSec(n, tag) THEN 1
  ELSE Each(n, LAMBDA k, v : IF k \in NamesOf(tbl) THEN Fld(k, v) ELSE IF k \in Unsettled THEN 2 ELSE 1)
Cif7(n) ==
  IF ~IsSec(n, "!CIF7") THEN 1
  ELSE Each(n, LAMBDA k, v : IF k \notin NamesOf(Cif7Table) THEN 1
                             ELSE IF Among(v, {"optional"}) = 0 THEN 2 ELSE Among(v, {"required"}))

\* --- command mode --------------------------------------------------------------------------
CamOpts == {"permit_partial", "permit_warnings", "permit_errors", "req_v", "req_x", "req_s", "req_w", "req_er"}
OptOf(n) == IF n.k = "b" THEN n.v ELSE n.v
CamEntries(n) == [i \in 1..Len(n.e) |-> <<n.e[i].key, OptOf(n.e[i].val)>>]
CamSays(n, k) == IF k \in Keys(n) THEN OptOf(At(n, k)) ELSE ""
Cam(n) ==
  IF ~IsSec(n, "!ControlAcknowledgeMode") THEN 1
  ELSE LET w == Each(n, LAMBDA k, v :
                   CASE k \in CamOpts -> IF v.k = "b" THEN Ok(Plain(v)) ELSE Mode(v)
                     [] k = "action_mode" -> IF v.k = "s" /\ v.v \in {"required", "optional"} THEN 2 ELSE Among(v, {"none", "dry-run", "execute"})
                     [] k \in {"controllee_format", "controller_format", "timing_control"} -> 2
                     [] OTHER -> 1)
       IN IF w # 0 THEN w
          ELSE IF CamSays(n, "action_mode") = "none"
               \* doing nothing can only be asked together with a state report
               THEN IF ~IsTrue(CamSays(n, "req_s")) \/ (\E k \in {"req_x", "req_v", "req_w", "req_er"} : IsTrue(CamSays(n, k))) THEN 1
                    ELSE IF \E k \in {"req_x", "req_v", "req_w", "req_er"} : IsOn(CamSays(n, k)) THEN 2 ELSE 0
               ELSE 0

\* --- trailer -------------------------------------------------------------------------------
UserKeys == {"user_defined_a", "user_defined_b", "user_defined_e", "user_defined_f", "user_defined1", "my_user_defined"}
TrDecl(k, v) == IF v.k = "s" THEN <<k, "ind", 1>> ELSE <<k, "enum", Len(v.e)>>
TrEntries(n) == SelectSeq(n.e, LAMBDA x : x.key \in UserKeys)
TrDecls(n) == LET xs == TrEntries(n) IN [i \in 1..Len(xs) |-> TrDecl(xs[i].key, xs[i].val)]
Trl(n) ==
  IF ~IsSec(n, "!Trailer") THEN 1
  ELSE LET w == Each(n, LAMBDA k, v :
                   CASE k = "sample_frame" -> Mode(v)
                     [] k \in UserKeys -> IF v.k = "q" THEN (IF ~NameList(v) \/ Len(v.e) < 2 \/ Len(v.e) > 16 THEN 1 ELSE IF ~Distinct(Names0(v)) THEN 2 ELSE 0)
                                          ELSE Exact(v, {"enable_indicator"})
                     [] OTHER -> 1)
       IN IF w # 0 THEN w
          \* four bits are there for the user; the sample frame takes two of them
          ELSE Ok(SumBits(TrDecls(n), TrWidth) <= (IF "sample_frame" \in Keys(n) THEN 2 ELSE 4))

\* --- packets -------------------------------------------------------------------------------
PacketTags == {"!Data", "!Context", "!ExtensionContext", "!Control", "!ExtensionControl", "!Ack", "!ExtensionAck"}
AckTags == {"!Ack", "!ExtensionAck"}
CtlTags == {"!Control", "!ExtensionControl"}
Common(k, v) == CASE k = "stream_id" -> Sid(v) [] k = "class_id" -> ClassId(v) [] k = "timestamp" -> Ts(v) [] OTHER -> 1
Words(k, v) == CASE k = "cif_0" -> Cif(v, "!CIF0", Cif0Table) [] k = "cif_1" -> Cif(v, "!CIF1", Cif1Table)
                 [] k = "cif_2" -> Cif(v, "!CIF2", Cif2Table) [] k = "cif_7" -> Cif7(v) [] OTHER -> Common(k, v)
Section(tag, k, v) ==
  CASE tag = "!Data" -> (CASE k = "trailer" -> Trl(v) [] k = "spectrum_or_time" -> Among(v, {"spectrum", "time"}) [] OTHER -> Common(k, v))
    [] tag \in {"!Context", "!ExtensionContext"} -> (IF k = "tsm" THEN Among(v, {"fine", "coarse", "any"}) ELSE Words(k, v))
    [] tag \in CtlTags -> (CASE k = "cam" -> Cam(v) [] k \in {"controllee_id", "controller_id"} -> Among(v, {"word", "uuid"}) [] OTHER -> Words(k, v))
    [] OTHER -> Words(k, v)
AckKeys == {"stream_id", "class_id", "timestamp", "cam", "controllee_id", "controller_id", "cif_0", "cif_1", "cif_2", "cif_7",
            "wif_0", "wif_1", "wif_2", "eif_0", "eif_1", "eif_2"}
\* what stands at the top level of the file and the files it includes
IsHidden(k) == k \in {".shared", ".base", ".notes"}
IsPacket(x) == x.val.tag \in PacketTags /\ x.val.k \in {"m", "t"}
IsInfo(x) == x.val.tag = "!InformationClass" /\ x.val.k \in {"m", "t"}
Bare0(doc) == SelectSeq(doc, LAMBDA x : ~IsHidden(x.key) /\ x.key # "include")
PacketVerdict(x, all) ==
  IF x.val.tag \in AckTags
  THEN IF x.val.k = "t" \/ "responds_to" \notin Keys(x.val) THEN 1
       ELSE LET to == At(x.val, "responds_to")
                c  == SelectSeq(all, LAMBDA y : y.key = to.v /\ IsPacket(y))
            IN IF to.k # "s" \/ to.up # 0 \/ to.tag # "" \/ c = <<>> \/ c[1].val.tag \notin CtlTags THEN 1
               ELSE IF (c[1].val.tag = "!ExtensionControl") # (x.val.tag = "!ExtensionAck") THEN 2
               ELSE Each(x.val, LAMBDA k, v : IF k = "responds_to" THEN 0 ELSE IF k \in AckKeys THEN 2 ELSE 1)
  ELSE Each(x.val, LAMBDA k, v : Section(x.val.tag, k, v))
\* the prologue's identifiers and those of CIF2 cannot both be had by name
Clash(x) == IsPacket(x) /\ x.val.tag \in CtlTags /\ "cif_2" \in Keys(x.val)
            /\ \E k \in {"controllee_id", "controller_id"} : k \in Keys(x.val) /\ k \in Keys(At(x.val, "cif_2"))
InfoVerdict(x, all) ==
  IF x.val.k = "t" \/ "packet_classes" \notin Keys(x.val) \/ "code" \notin Keys(x.val)
  THEN IF Each(x.val, LAMBDA k, v : Ok(k \in {"code", "packet_classes"})) = 1 THEN 1 ELSE 2
  ELSE LET w == Each(x.val, LAMBDA k, v :
             CASE k = "code" -> Code(v)
               [] k = "packet_classes" -> IF ~NameList(v) THEN 1 ELSE IF v.e = <<>> THEN 2
                     ELSE Ok(Distinct(Names0(v)) /\ \A i \in 1..Len(v.e) : v.e[i].val.up = 0 /\ \E j \in 1..Len(all) : all[j].key = v.e[i].val.v /\ IsPacket(all[j]))
               [] OTHER -> 1)
       IN w
\* two classes of the same code: nothing says how they would be told apart
Codes(all) == LET s == SelectSeq(all, LAMBDA x : IsInfo(x) /\ "code" \in Keys(x.val)) IN [i \in 1..Len(s) |-> At(s[i].val, "code").lo]
\* hidden entries only hold what other entries refer to; they are read all the same
HiddenVerdict(x) == CASE x.val.tag = "!ClassID" -> ClassId(x.val) [] x.val.tag = "!Timestamp" -> Ts(x.val)
                      [] x.val.tag = "!CIF0" -> Cif(x.val, "!CIF0", Cif0Table) [] x.val.tag = "!StreamID" -> Sid(x.val)
                      [] x.val.tag = "" /\ x.val.k \in {"s", "i", "b"} -> 0
                      [] OTHER -> 2
\* a file: its own entries, and those of the files it includes
FileVerdict(own, inc) ==
  LET all == Bare0(own) \o Bare0(inc)
      one(x) == IF IsHidden(x.key) THEN HiddenVerdict(x)
                ELSE IF x.key = "include" THEN (IF x.val.k = "q" /\ x.val.e = <<>> THEN 2 ELSE Ok(x.val.k = "q" /\ Plain(x.val) /\ \A i \in 1..Len(x.val.e) : x.val.e[i].val.v = "@inc"))
                ELSE IF IsPacket(x) THEN (IF PacketVerdict(x, all) = 0 /\ Clash(x) THEN 2 ELSE PacketVerdict(x, all))
                ELSE IF IsInfo(x) THEN InfoVerdict(x, all) ELSE 1
  IN Worst(<<Open(own # <<>>), Open(Distinct([i \in 1..Len(all) |-> all[i].key])), Open(Distinct(Codes(all)))>>
           \o [i \in 1..Len(own) |-> one(own[i])] \o [i \in 1..Len(inc) |-> one(inc[i])])

\* --- what an accepted document says ----------------------------------------------------------
\* as the abstract definitions of Defs
KindOf(tag) == CASE tag = "!Data" -> "data" [] tag = "!Context" -> "context" [] tag = "!ExtensionContext" -> "xcontext"
                 [] tag = "!Control" -> "control" [] tag = "!ExtensionControl" -> "xcontrol" [] tag = "!Ack" -> "ack"
                 [] tag = "!ExtensionAck" -> "xack" [] OTHER -> "info"
Says(n, k) == IF k \in Keys(n) THEN At(n, k).v ELSE ""
Octets(n) == <<n.hi \div 256, n.hi % 256, n.lo \div 256, n.lo % 256>>
ReadField(k, v) ==
  [n |-> k,
   mode |-> IF k = "index_list" THEN "required" ELSE IF v.k = "s" THEN v.v ELSE IF "mode" \in Keys(v) THEN At(v, "mode").v ELSE "optional",
   x |-> CASE k \in {"reference_level", "buffer_size"} -> (IF v.tag = "" THEN "" ELSE "difi")
           [] k = "index_list" -> (IF "entry_size" \notin Keys(v) THEN "8"
                                   ELSE IF At(v, "entry_size").k = "i" THEN ToString(At(v, "entry_size").lo) ELSE At(v, "entry_size").v)
           [] OTHER -> "",
   dio |-> IF k \in {"discrete_io_32", "discrete_io_64"} /\ v.k = "m" THEN DioDecls(v) ELSE <<>>]
ReadCif(n, k) == IF k \notin Keys(n) THEN [on |-> FALSE, f |-> <<>>]
                 ELSE [on |-> TRUE, f |-> [i \in 1..Len(At(n, k).e) |-> ReadField(At(n, k).e[i].key, At(n, k).e[i].val)]]
ReadCode(n, k) == IF k \in Keys(n) THEN At(n, k).lo ELSE -1
Read(x) ==
  LET n == x.val
      sid == IF "stream_id" \in Keys(n) THEN At(n, "stream_id") ELSE Blank
      cls == IF "class_id" \in Keys(n) THEN At(n, "class_id") ELSE Blank
      ts  == IF "timestamp" \in Keys(n) THEN At(n, "timestamp") ELSE Blank
      tr  == IF "trailer" \in Keys(n) THEN At(n, "trailer") ELSE Blank
  IN [ name |-> x.key, kind |-> KindOf(n.tag), to |-> Says(n, "responds_to"),
       sid |-> IF "stream_id" \notin Keys(n) THEN "none" ELSE IF sid.k = "m" THEN "user" ELSE "word",
       sidv |-> IF sid.k = "i" THEN Octets(sid) ELSE <<>>,
       sidparts |-> IF sid.k = "m" THEN [i \in 1..Len(sid.e) |-> <<sid.e[i].key, PartBits(sid.e[i].val)>>] ELSE <<>>,
       clsid |-> [on |-> "class_id" \in Keys(n),
                  oui |-> IF "oui" \in Keys(cls) THEN [i \in 1..3 |-> HexOf(At(cls, "oui").e[i].key)] ELSE <<>>,
                  ic |-> ReadCode(cls, "information_code"), pc |-> ReadCode(cls, "packet_code"), multi |-> FALSE],
       tsi |-> Says(ts, "integer"), tsf |-> Says(ts, "fractional"), tsm |-> Says(n, "tsm"), sot |-> Says(n, "spectrum_or_time"),
       ctee |-> Says(n, "controllee_id"), cter |-> Says(n, "controller_id"),
       cam |-> IF "cam" \in Keys(n) THEN CamEntries(At(n, "cam")) ELSE <<>>,
       cif0 |-> ReadCif(n, "cif_0"), cif1 |-> ReadCif(n, "cif_1"), cif2 |-> ReadCif(n, "cif_2"),
       cif7 |-> [on |-> "cif_7" \in Keys(n), f |-> IF "cif_7" \in Keys(n) THEN [i \in 1..Len(At(n, "cif_7").e) |-> At(n, "cif_7").e[i].key] ELSE <<>>],
       trailer |-> [on |-> "trailer" \in Keys(n), sf |-> Says(tr, "sample_frame"), user |-> TrDecls(tr)],
       code |-> IF n.tag = "!InformationClass" THEN ReadCode(n, "code") ELSE 0,
       packets |-> IF n.tag = "!InformationClass" /\ "packet_classes" \in Keys(n) THEN Names0(At(n, "packet_classes")) ELSE <<>> ]
ReadFile(own, inc) == LET all == Bare0(inc) \o Bare0(own) IN [i \in 1..Len(all) |-> Read(all[i])]

\* --- what the parsed model says about one definition -------------------------------------------
Mem(ms) == [i \in 1..Len(ms) |-> <<ms[i].m, ms[i].hi, ms[i].n>>]
DioFacts(f) == IF f.dio = <<>> THEN <<>> ELSE Mem(DioMembers(f.dio, 0))
RECURSIVE TrFacts(_, _)
TrFacts(xs, pos) ==
  IF xs = <<>> THEN <<>>
  ELSE LET x == Head(xs)
           w == TrWidth(x)
       IN <<<<x[1], pos + w - 1, w>>, <<x[1] \o "_enable", pos + w + 11, w>>>> \o TrFacts(Tail(xs), pos + w)
CifFacts(c, tbl) ==
  IF ~c.on THEN [on |-> FALSE, f |-> <<>>]
  ELSE LET on == SelectSeq(tbl, LAMBDA r : \E i \in 1..Len(c.f) : c.f[i].n = r[1])
           decl(r) == c.f[CHOOSE i \in 1..Len(c.f) : c.f[i].n = r[1]]
       IN [on |-> TRUE, f |-> [i \in 1..Len(on) |-> <<on[i][1], decl(on[i]).mode = "required", decl(on[i]).x, DioFacts(decl(on[i]))>>]]
OffCif == [on |-> FALSE, f |-> <<>>]
CamFact(o) == <<IsOn(o), IsTrue(o), IsTrue(o)>>
Code7(s, tsi) == IF s = "any" THEN 7 ELSE IF tsi THEN TsiOf(s) ELSE TsfOf(s)
\* of a packet that is not an acknowledgement
PlainFacts(d) ==
  [ name |-> d.name, ptype |-> Shape0(d).ptype, ack |-> FALSE,
    cls |-> IF d.clsid.on THEN <<d.clsid.oui, d.clsid.ic, d.clsid.pc>> ELSE <<>>,
    tsi |-> <<HasTs(d.tsi), Code7(d.tsi, TRUE)>>, tsf |-> <<HasTs(d.tsf), Code7(d.tsf, FALSE)>>,
    tsm |-> IF d.tsm = "" THEN -1 ELSE IF d.tsm = "any" THEN 7 ELSE Shape0(d).b24,
    sot |-> IF d.sot = "" THEN -1 ELSE IF d.sot = "spectrum" THEN 1 ELSE 0,
    b25 |-> Shape0(d).b25,
    sid |-> IF Shape0(d).sid = "none" THEN <<"none">> ELSE IF d.sid = "user" THEN <<"user", Mem(SidMembers(d.sidparts, 0))>> ELSE <<"word", d.sidv>>,
    cam |-> IF IsCtl(d) THEN [k \in CamOpts |-> CamFact(CamOpt(d, k))] ELSE <<>>,
    action |-> IF IsCtl(d) THEN <<CamOpt(d, "action_mode") # "", ActionOf(CamOpt(d, "action_mode"))>> ELSE <<>>,
    ctee |-> d.ctee, cter |-> d.cter,
    cif0 |-> IF Has0(d) THEN [CifFacts(d.cif0, Cif0Table) EXCEPT !.on = TRUE] ELSE OffCif,
    cif1 |-> CifFacts(d.cif1, Cif1Table), cif2 |-> CifFacts(d.cif2, Cif2Table),
    cif7 |-> IF d.cif7.on THEN <<TRUE, SelectSeq([i \in 1..Len(Cif7Table) |-> Cif7Table[i][1]], LAMBDA k : k \in Range(d.cif7.f))>> ELSE <<FALSE, <<>>>>,
    trailer |-> IF d.kind = "data" /\ d.trailer.on THEN <<TRUE, d.trailer.sf, TrFacts(d.trailer.user, 8)>> ELSE <<FALSE, "", <<>>>>,
    weif |-> <<>> ]
\* an acknowledgement mirrors the control it responds to
AckFacts(a, c) ==
  LET s == PlainFacts(c)
      on(k) == IsOn(CamOpt(c, "req_" \o k))
      names(cf, tbl) == [i \in 1..Len(CifFacts(cf, tbl).f) |-> CifFacts(cf, tbl).f[i][1]]
  IN [s EXCEPT !.name = a.name, !.ack = TRUE, !.ptype = IF a.kind = "xack" THEN 7 ELSE 6,
        !.cam = [k \in CamOpts |-> IF k \in {"req_v", "req_x", "req_s", "req_w", "req_er"} THEN <<CamFact(CamOpt(c, k))[1], FALSE, CamFact(CamOpt(c, k))[3]>> ELSE @[k]],
        !.cif0 = IF on("s") THEN @ ELSE OffCif, !.cif1 = IF on("s") THEN @ ELSE OffCif, !.cif2 = IF on("s") THEN @ ELSE OffCif,
        !.cif7 = <<FALSE, <<>>>>,
        !.weif = IF Has0(c) /\ (on("v") \/ on("x")) THEN <<names(c.cif0, Cif0Table), names(c.cif1, Cif1Table), names(c.cif2, Cif2Table)>> ELSE <<>>]
FactOf(ds, d) == IF IsAck(d) THEN LET c == ds[CHOOSE j \in 1..Len(ds) : ds[j].name = d.to] IN AckFacts(d, [c EXCEPT !.clsid = IF c.clsid.on /\ d.clsid.ic >= 0 THEN [@ EXCEPT !.ic = d.clsid.ic] ELSE @])
                 ELSE PlainFacts(d)
\* every packet the file stands for; with information classes, once for each that lists it,
\* under its code
Coded(d, code) == [d EXCEPT !.clsid.ic = code]
Facts(ds) ==
  IF Infos(ds) = <<>> THEN [i \in 1..Len(ds) |-> FactOf(ds, ds[i])]
  ELSE LET cs == Infos(ds)
       IN Cat([i \in 1..Len(cs) |-> [j \in 1..Len(cs[i].packets) |->
             FactOf(ds, Coded(ds[CHOOSE k \in 1..Len(ds) : ds[k].name = cs[i].packets[j]], cs[i].code))]])
InfoFacts(ds) == [i \in 1..Len(Infos(ds)) |-> <<Infos(ds)[i].name, Infos(ds)[i].code, Infos(ds)[i].packets>>]
=============================================================================
