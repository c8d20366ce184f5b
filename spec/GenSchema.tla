------------------------------ MODULE GenSchema ------------------------------
(* Documents for the parser: random definition files, each written in two     *)
(* ways that mean the same (mapping order, letter case), most of them with     *)
(* one thing about them changed.  What a document means is Schema's business:  *)
(* this module only draws, and checks that the meaning does not depend on the  *)
(* way it is written.                                                           *)
EXTENDS GenDefs, Schema

Rnd(a, b) == RandomElement(a..b)
Nest(f, ds) == IF ds.on THEN f ELSE <<>>

\* --- from abstract definitions to documents ------------------------------------------
Hx(b) == HexPair[b]
NumOf(b) == Num(b[1] * 256 + b[2], b[3] * 256 + b[4])
Hexed(node) == [node EXCEPT !.v = Pick(<<"hex", "dec">>)]
OuiOf(b) == [Blank EXCEPT !.k = "o", !.e = [i \in 1..Len(b) |-> En(Hx(b[i]), Blank)]]
SidNode(d) == CASE d.sid = "user" -> Map("!StreamID", [i \in 1..Len(d.sidparts) |->
                                       En(d.sidparts[i][1], Map("!IntegerType", <<En("bits", Whole(d.sidparts[i][2]))>>))])
                [] d.sidv # <<>> -> [Hexed(NumOf(d.sidv)) EXCEPT !.tag = "!StreamID"]
                [] OTHER -> Bare("!StreamID")
ClsNode(c) == Map("!ClassID", (IF c.oui = <<>> THEN <<>> ELSE <<En("oui", OuiOf(c.oui))>>)
                \o (IF c.pc < 0 THEN <<>> ELSE <<En("packet_code", Hexed(Whole(c.pc)))>>)
                \o (IF c.ic < 0 THEN <<>> ELSE <<En("information_code", Hexed(Whole(c.ic)))>>))
Says1(k, s) == IF s = "" THEN <<>> ELSE <<En(k, Str(s))>>
ListOf(nm, c) == Lst([i \in 1..c |-> Str(nm \o "_v" \o ToString(i - 1))])
MemNode(x) == CASE x[2] = "bool" -> Str("bool") [] x[2] = "ind" -> Str("enable_indicator")
                [] x[2] = "int" -> Whole(x[3]) [] OTHER -> ListOf(x[1], x[3])
FldNode(f) == CASE f.x = "difi" -> Map(IF f.n = "reference_level" THEN "!DIFI1p2ReferenceLevel" ELSE "!DIFI1p2BufferSize", <<En("mode", Str(f.mode))>>)
                [] f.n = "index_list" -> Map("!IndexList", <<En("entry_size", CASE f.x = "8" -> Whole(8) [] f.x = "16" -> Whole(16) [] OTHER -> Str("32"))>>)
                [] f.dio # <<>> -> Map(IF f.n = "discrete_io_32" THEN "!DiscreteIO32" ELSE "!DiscreteIO64",
                                       <<En("mode", Str(f.mode))>> \o [i \in 1..Len(f.dio) |-> En(f.dio[i][1], MemNode(f.dio[i]))])
                [] OTHER -> Str(f.mode)
CifNode(k, tag, c) == IF ~c.on THEN <<>> ELSE <<En(k, Sec(tag, [i \in 1..Len(c.f) |-> En(c.f[i].n, FldNode(c.f[i]))]))>>
CamNode(c) == Sec("!ControlAcknowledgeMode", [i \in 1..Len(c) |-> En(c[i][1], IF c[i][2] \in {"true", "false"} THEN Boo(c[i][2]) ELSE Str(c[i][2]))])
TrNode(t) == Sec("!Trailer", Says1("sample_frame", t.sf) \o [i \in 1..Len(t.user) |-> En(t.user[i][1], MemNode(t.user[i]))])
TagOf(kind) == CASE kind = "data" -> "!Data" [] kind = "context" -> "!Context" [] kind = "xcontext" -> "!ExtensionContext"
                 [] kind = "control" -> "!Control" [] kind = "xcontrol" -> "!ExtensionControl" [] kind = "ack" -> "!Ack" [] OTHER -> "!ExtensionAck"
NodeOf(d) ==
  IF IsAck(d) THEN Map(TagOf(d.kind), <<En("responds_to", Str(d.to))>>)
  ELSE Sec(TagOf(d.kind),
     (IF d.sid = "none" THEN <<>> ELSE <<En("stream_id", SidNode(d))>>)
     \o (IF d.clsid.on THEN <<En("class_id", ClsNode(d.clsid))>> ELSE <<>>)
     \o (IF d.tsi = "" /\ d.tsf = "" THEN <<>> ELSE <<En("timestamp", Map("!Timestamp", Says1("integer", d.tsi) \o Says1("fractional", d.tsf)))>>)
     \o Says1("tsm", d.tsm) \o Says1("spectrum_or_time", d.sot)
     \o (IF d.cam = <<>> THEN <<>> ELSE <<En("cam", CamNode(d.cam))>>)
     \o Says1("controllee_id", d.ctee) \o Says1("controller_id", d.cter)
     \o CifNode("cif_0", "!CIF0", d.cif0) \o CifNode("cif_1", "!CIF1", d.cif1) \o CifNode("cif_2", "!CIF2", d.cif2)
     \o (IF d.cif7.on THEN <<En("cif_7", Sec("!CIF7", [i \in 1..Len(d.cif7.f) |-> En(d.cif7.f[i], Str("required"))]))>> ELSE <<>>)
     \o (IF d.trailer.on THEN <<En("trailer", TrNode(d.trailer))>> ELSE <<>>))

\* --- the same, written differently ------------------------------------------------------
RECURSIVE Shuf(_)
Shuf(sq) == IF Len(sq) <= 1 THEN sq
            ELSE Bind(Rnd(1, Len(sq)), LAMBDA i : <<sq[i]>> \o Shuf(SubSeq(sq, 1, i - 1) \o SubSeq(sq, i + 1, Len(sq))))
\* in some mappings the order of the members says where they are placed
Ordered == {"!DiscreteIO32", "!DiscreteIO64", "!Trailer", "!StreamID"}
Anywhere == {"mode", "sample_frame"}
Reorder(sq) == LET loose == SelectSeq(sq, LAMBDA x : x.key \in Anywhere)
                   fast  == SelectSeq(sq, LAMBDA x : x.key \notin Anywhere)
               IN IF loose = <<>> THEN fast ELSE Bind(Rnd(1, Len(fast) + 1), LAMBDA i : InsertAt(fast, i, loose[1]) \o Tail(loose))
\* words whose letter case does not matter (the modes of action are only known in lower case
\* when they are shared with the modes of fields)
AnyCase == TsiWords \cup TsfWords \cup {"required", "optional", "fine", "coarse", "spectrum", "time", "word", "uuid", "execute", "dry-run"}
RECURSIVE Write(_)
Write(node) ==
  CASE node.k = "m" -> LET es == [i \in 1..Len(node.e) |-> En(node.e[i].key, Write(node.e[i].val))]
                       IN [node EXCEPT !.e = IF node.tag \in Ordered THEN Reorder(es) ELSE Shuf(es)]
    [] node.k = "s" /\ node.v \in AnyCase /\ node.up = 0 /\ node.tag = "" -> [node EXCEPT !.up = Rnd(0, 3)]
    [] node.k = "o" -> [node EXCEPT !.up = Rnd(0, 3)]
    [] node.k = "i" -> Hexed(node)
    [] OTHER -> node
WriteFile(es) == LET r == Write(Map("", es)) IN r.e

\* --- one thing changed ------------------------------------------------------------------
OtherKeys == <<"bogus", "extra_field", "packed_0", "header", "name", "enabled", "required", "message_id", "bits", "trailer", "cif_0", "cif_1",
               "cif_7", "cam", "tsm", "tsi", "stream_id", "class_id", "timestamp", "spectrum_or_time", "not_v49d0", "packet_type", "acknowledge_packet",
               "trailer_included", "mode", "value", "responds_to", "subfields", "attributes", "total_size", "num_entries", "entries", "entry_size", "cif_3",
               "packet_size", "packet_count", "controllee_id", "controllee_enable", "reserved", "oui", "pad_bits", "code", "integer", "bandwidth", "gain",
               "req_s", "req_v", "ack_v", "partial_action", "action_mode", "phase_offset", "user_defined1", "my_user_defined", "sample_frame", "mean_value",
               "context_packet_count", "tsf", "type_", "fields", "packet_classes", "calibrated_time", "valid_data", "over_range">>
Tags == <<"!StreamID", "!ClassID", "!Timestamp", "!CIF0", "!CIF1", "!CIF2", "!CIF7", "!ControlAcknowledgeMode", "!Trailer", "!IndexList",
          "!DiscreteIO32", "!DiscreteIO64", "!DIFI1p2ReferenceLevel", "!DIFI1p2BufferSize", "!IntegerType", "!Data", "!Context", "!ExtensionContext",
          "!Control", "!Ack", "!InformationClass", "!SectorStepScan", "">>
Junk(x) ==
  Bind(Rnd(1, 16), LAMBDA c :
    CASE c <= 2 -> Str(Pick(<<"required", "optional">>))
      [] c <= 5 -> Str(Pick(<<"bogus", "disabled", "mandatory", "yes-please", "any", "none", "utc", "enable_indicator", "bool", "time", "samples", "execute", "8", "req_s">>))
      [] c = 6 -> Boo(Pick(<<"true", "false">>))
      [] c <= 8 -> Pick(<<Whole(0), Whole(1), Whole(8), Whole(33), Whole(65), Whole(65535), Num(1, 0), Num(65536, 0), Neg(1), Neg(7)>>)
      [] c = 9 -> Frac(Pick(<<"1.5", "2.0">>))
      [] c = 10 -> Lst(<<>>)
      [] c = 11 -> Lst(<<Str("one"), Str("two")>>)
      [] c = 12 -> Map("", <<>>)
      [] c = 13 -> Map("", <<En("bogus", Str("required"))>>)
      [] c = 14 -> Bare(Pick(<<"!Timestamp", "!CIF0", "!CIF1", "!Trailer", "!IndexList", "!ControlAcknowledgeMode">>))
      [] c = 15 -> Map("!ClassID", <<En("packet_code", Whole(3))>>)
      [] OTHER -> Map("!IntegerType", <<En("bits", Whole(Pick(<<0, 1, 4, 32, 33>>)))>>))
RECURSIVE Paths(_)
Paths(node) == <<<<>>>> \o (IF node.k \in {"m", "q"} THEN Cat([i \in 1..Len(node.e) |-> LET ps == Paths(node.e[i].val) IN [j \in 1..Len(ps) |-> <<i>> \o ps[j]]]) ELSE <<>>)
RECURSIVE AtPath(_, _)
AtPath(node, p) == IF p = <<>> THEN node ELSE AtPath(node.e[Head(p)].val, Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(node, p, x) == IF p = <<>> THEN x ELSE [node EXCEPT !.e[Head(p)].val = PutAt(@, Tail(p), x)]
FreshKey(node) == Bind(Pick(OtherKeys), LAMBDA k : IF k \in Keys(node) THEN "bogus" ELSE k)
Change(node) ==
  Bind(Rnd(1, 9), LAMBDA c :
    CASE node.k = "m" /\ c <= 4 -> Bind(FreshKey(node), LAMBDA k : Bind(IF node.e # <<>> /\ Coin(1, 3) THEN Pick(node.e).val ELSE Junk(c), LAMBDA v :
                                     IF k \in Keys(node) THEN node ELSE [node EXCEPT !.e = InsertAt(node.e, Rnd(1, Len(node.e) + 1), En(k, v))]))
      [] node.k = "m" /\ node.e # <<>> /\ c = 5 -> Bind(Rnd(1, Len(node.e)), LAMBDA i : [node EXCEPT !.e = SubSeq(node.e, 1, i - 1) \o SubSeq(node.e, i + 1, Len(node.e))])
      [] node.k = "m" /\ node.e # <<>> /\ c = 6 -> Bind(FreshKey(node), LAMBDA k : Bind(Rnd(1, Len(node.e)), LAMBDA i : IF k \in Keys(node) THEN node ELSE [node EXCEPT !.e[i].key = k]))
      [] node.k = "m" /\ Len(node.e) > 1 /\ c = 7 -> Bind(Rnd(1, Len(node.e) - 1), LAMBDA i : [node EXCEPT !.e[i].val = node.e[i + 1].val, !.e[i + 1].val = node.e[i].val])
      [] node.k \in {"m", "t"} /\ c = 8 -> [node EXCEPT !.tag = Pick(Tags)]
      [] node.k = "i" /\ c <= 6 -> [Pick(<<Num(node.hi + 65536, node.lo), Num(node.hi + 1, node.lo), [node EXCEPT !.neg = TRUE, !.lo = IF @ = 0 THEN 1 ELSE @], Frac("3.5"), Boo("true"), Whole(0), Str("12x")>>) EXCEPT !.tag = node.tag]
      [] node.k = "o" /\ c <= 7 -> [node EXCEPT !.e = Pick(<<SubSeq(node.e, 1, 2), node.e \o <<En("00", Blank)>>, <<En("0g", Blank)>> \o Tail(node.e), <<En("zz", Blank)>> \o Tail(node.e),
                                       <<En("1", Blank)>> \o Tail(node.e), <<En("00", Blank), En("12", Blank), En("a2", Blank)>>, <<En("00", Blank), En("12", Blank), En("a3", Blank)>>>>)]
      [] node.k = "s" /\ node.v = "bool" /\ c <= 3 -> [node EXCEPT !.up = 1]
      [] node.k = "s" /\ node.v = "enable_indicator" /\ c <= 3 -> [node EXCEPT !.up = 2]
      [] node.k = "q" /\ c <= 4 -> [node EXCEPT !.e = IF c = 1 THEN <<>> ELSE IF c = 2 THEN SubSeq(node.e, 1, 1) ELSE node.e \o [i \in 1..Rnd(1, 16) |-> En("", Str("more" \o ToString(i)))]]
      [] OTHER -> Junk(c))
Mutated(es) == Bind(Map("", es), LAMBDA root : Bind(Pick(Tail(Paths(root))), LAMBDA p : LET r == PutAt(root, p, Change(AtPath(root, p))) IN r.e))
\* added at the top of the file
TopChange(es) == Bind(Pick(<<"Extra", "files", "Other">>), LAMBDA k : es \o <<En(k, Pick(<<Str("required"), Map("", <<>>), Whole(4), Lst(<<Str("x")>>), Bare("!CIF0"), Bare("!Timestamp"),
                       Bare("!Data"), Bare("!Context"), Bare("!Ack"), Map("!Ack", <<En("responds_to", Str("Nobody"))>>), Map("!Ack", <<En("responds_to", Str("GenDat"))>>),
                       Map("!Ack", <<En("responds_to", Str("GenCtlAck"))>>), Map("!Ack", <<En("responds_to", Str("GenCtx"))>>), Bare("!Control")>>))>>)

\* --- files ---------------------------------------------------------------------------------
\* packets that say the same thing in one of their sections
Alike(a, b, c) ==
  CASE c = 1 -> [b EXCEPT !.clsid = a.clsid]
    [] c = 2 -> [b EXCEPT !.tsi = a.tsi, !.tsf = a.tsf]
    [] c = 3 -> IF b.kind = "data" \/ a.sid # "none" THEN [b EXCEPT !.sid = a.sid, !.sidv = a.sidv, !.sidparts = a.sidparts] ELSE b
    [] c = 4 -> IF IsCtl(b) /\ IsCtl(a) THEN [b EXCEPT !.cam = a.cam] ELSE b
    [] c = 5 -> IF ~b.cif0.on THEN b ELSE [b EXCEPT !.cif0 = IF a.cif0.on THEN a.cif0 ELSE b.cif0]
    [] OTHER -> b
Cif7Of(x) == [on |-> TRUE, f |-> SelectSeq([i \in 1..Len(Cif7Table) |-> Cif7Table[i][1]], LAMBDA k : Coin(1, 3))]
Draw(x) ==
  Bind(Rnd(1, 12 + 0 * x), LAMBDA c :
    CASE c <= 2 -> <<DataDef("GenDat")>>
      [] c <= 4 -> <<CtxDef("GenCtx")>>
      [] c = 5 -> Bind(CtxDef("GenCtx"), LAMBDA d : <<[d EXCEPT !.cif7 = Cif7Of(c)]>>)
      [] c <= 7 -> Bind(CtlDef("GenCtl"), LAMBDA a : IF Coin(1, 2) THEN <<a, AckDef("GenCtlAck", a)>> ELSE <<a>>)
      [] c <= 9 -> Bind(CtlDef("GenCtl"), LAMBDA a : Bind(CtlDef("GenTwo"), LAMBDA b : Bind(Alike(Alike(a, b, Rnd(1, 5)), Alike(a, b, Rnd(1, 5)), 4), LAMBDA b2 :
                     <<a, Alike(a, b2, Rnd(1, 5)), AckDef("GenCtlAck", a)>>)))
      [] OTHER -> Bind(CtlDef("GenCtl"), LAMBDA a : Bind(CtxDef("GenCtx"), LAMBDA b : Bind(DataDef("GenDat"), LAMBDA d :
                     <<a, Alike(a, b, Rnd(1, 5)), Alike(a, d, Rnd(1, 3)), AckDef("GenCtlAck", a)>>))))
NamesIn(ds) == [i \in 1..Len(ds) |-> ds[i].name]
InfoNode(nm, code, ps) == En(nm, Map("!InformationClass", <<En("code", Hexed(Whole(code))), En("packet_classes", Lst([i \in 1..Len(ps) |-> Str(ps[i])]))>>))
WithInfo(ds, es) ==
  IF ~Coin(1, 4) THEN es
  ELSE Bind(RndBits(16), LAMBDA code : Bind(SelectSeq(NamesIn(ds), LAMBDA x : x \in {"GenCtl", "GenCtlAck"} \/ Coin(3, 4)), LAMBDA ps :
       IF ps = <<>> THEN es
       ELSE es \o <<InfoNode("GenInfo", code, Shuf(ps))>>
               \o (IF Coin(1, 3) THEN <<InfoNode("GenInfo2", (code + 5) % 65536, ps)>> ELSE <<>>)))
WithHidden(ds, es) ==
  IF ~Coin(1, 4) THEN es
  ELSE <<En(Pick(<<".shared", ".base", ".notes">>), CASE ds[1].clsid.on -> ClsNode(ds[1].clsid) [] ds[1].cif0.on -> CifNode("cif_0", "!CIF0", ds[1].cif0)[1].val
                                            [] OTHER -> Str("notes"))>> \o es
Split(ds) == \* which of the packets live in an included file
  IF Coin(1, 4) THEN {i \in 1..Len(ds) : ~IsAck(ds[i]) /\ Coin(1, 2)} ELSE {}
NodeSeq(ds, I) == LET is == SelectSeq([i \in 1..Len(ds) |-> i], LAMBDA i : i \in I) IN [j \in 1..Len(is) |-> En(ds[is[j]].name, NodeOf(ds[is[j]]))]
Case(x) ==
  Bind(Draw(x + 0), LAMBDA ds : Bind(Split(ds), LAMBDA I :
  Bind(NodeSeq(ds, I), LAMBDA inc :
  Bind(WithHidden(ds, WithInfo(ds, NodeSeq(ds, 1..Len(ds) \ I))), LAMBDA own0 :
  Bind(IF inc = <<>> THEN own0 ELSE own0 \o <<En("include", Lst(<<Str("@inc")>>))>>, LAMBDA own :
  Bind(Rnd(1, 10), LAMBDA c :
    [ds |-> ds, plain |-> c <= 3,
     own |-> CASE c <= 3 -> own [] c = 4 -> TopChange(own) [] c = 5 /\ inc # <<>> -> own [] c = 6 -> Mutated(Mutated(own)) [] OTHER -> Mutated(own),
     inc |-> IF c = 5 /\ inc # <<>> THEN Mutated(inc) ELSE inc]))))))

\* the parser: files are read one after the other, and each means what its text says
VARIABLES read, last
Sinit == n = 0 /\ read = 0 /\ last = <<>>
Meaning(own, inc) == [v |-> FileVerdict(own, inc), f |-> IF FileVerdict(own, inc) = 0 THEN Range(Facts(ReadFile(own, inc))) ELSE {},
                      i |-> IF FileVerdict(own, inc) = 0 THEN Range(InfoFacts(ReadFile(own, inc))) ELSE {}]
Parse == /\ read < 100000
         /\ \E c \in {Case(read)} :
            \E w1 \in {[own |-> WriteFile(c.own), inc |-> WriteFile(c.inc)]} :
            \E w2 \in {[own |-> WriteFile(c.own), inc |-> WriteFile(c.inc)]} :
            \E m \in {Meaning(c.own, c.inc)} :
              /\ Assert(Meaning(w1.own, w1.inc) = m /\ Meaning(w2.own, w2.inc) = m, <<"meaning depends on the way of writing", c, w1, w2>>)
              /\ Assert(c.plain => m.v \in {0, 2}, <<"a drawn definition is not accepted", c>>)
              /\ (IF m.v = 2 THEN TRUE ELSE Emit([v |-> m.v, plain |-> c.own, pinc |-> c.inc, one |-> w1, two |-> w2, facts |-> SetToSeq(m.f), info |-> SetToSeq(m.i)]))
              /\ read' = read + 1 /\ last' = <<m.v>> /\ UNCHANGED n
Sspec == Sinit /\ [][Parse]_<<n, read, last>>
=============================================================================
