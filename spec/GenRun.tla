------------------------------- MODULE GenRun -------------------------------
(* Runs of the generator: definition files that include others, several files *)
(* given at once, information classes listing packets, names of any accepted   *)
(* spelling, output options.  The state is what the generator has collected    *)
(* (the packet classes, in order, with their information codes) and the files  *)
(* it has written; every step is one definition file being worked off.         *)
EXTENDS GenDefs

VARIABLES run,      \* the run: parts, files, options
          pk,       \* the packet classes collected
          info,     \* an information class has been seen
          out,      \* paths written
          st        \* "run", "done" or "rejected"

\* --- names -------------------------------------------------------------------------
\* a name is a sequence of characters; other characters than letters, digits, '.' and '-' vanish from a class name
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Digit == {"0","1","2","3","4","5","6","7","8","9"}
IsUp(c) == c \in Range(Upper)
Low(c)  == IF IsUp(c) THEN Lower[CHOOSE i \in 1..26 : Upper[i] = c] ELSE c
Alnum(c) == IsUp(c) \/ c \in Range(Lower) \/ c \in Digit
Ident(s) == Cat([i \in 1..Len(s) |-> IF Alnum(s[i]) THEN <<s[i]>> ELSE IF s[i] \in {".", "-"} THEN <<"_">> ELSE <<>>])
\* file names: words of a class name are separated, all in lower case
Snake(s) == <<Low(s[1])>> \o Cat([i \in 1..(Len(s) - 1) |-> IF IsUp(s[i+1]) THEN <<"_", Low(s[i+1])>> ELSE IF Alnum(s[i+1]) THEN <<s[i+1]>> ELSE <<>>])
Str(s) == FoldSeq(LAMBDA c, a : a \o c, "", s)

Words == <<<<"S","i","g">>, <<"d","a","t","a">>, <<"I","Q">>, <<"v","2">>, <<"A">>, <<"L","o","n","g","W","o","r","d">>, <<"x">>, <<"f","l","o","w","4","9">>, <<"i","n","t">>>>
Seps  == <<<<>>, <<>>, <<".">>, <<"-">>, <<"_">>>>
\* the last word of a name is its own, so that no two classes share a file
Own(i, c) == IF c THEN <<Upper[i], "q">> ELSE <<Lower[i], "q">>
RndName(i) ==
  Bind(RandomElement(0..2), LAMBDA k : Bind(Own(i, Coin(1, 2)), LAMBDA o :
    CASE k = 0 -> o
      [] k = 1 -> Pick(Words) \o Pick(Seps) \o o
      [] OTHER -> Pick(Words) \o Pick(Seps) \o Pick(Words) \o Pick(Seps) \o o))

\* --- runs ----------------------------------------------------------------------------
Thin(d, tbl) == [d EXCEPT !.cif0 = CifOf(RndCif(tbl, {}, 1)), !.cif1 = NoCif, !.cif2 = IF Coin(1, 4) THEN CifOf(<<RndField("rf_footprint")>>) ELSE NoCif]
WithCls(d, on) == IF on /\ ~d.clsid.on THEN [d EXCEPT !.clsid = [on |-> TRUE, oui |-> RndRaw(3), ic |-> -1, pc |-> 7, multi |-> FALSE]] ELSE d
\* a part is one or two definitions; nm: their names
Part(kind, a, b, cls) ==
  CASE kind = "data" -> Bind(DataDef(a), LAMBDA d : <<WithCls(d, cls)>>)
    [] kind = "ctx"  -> Bind(CtxDef(a), LAMBDA d : Bind(Thin(d, Cif0Table), LAMBDA e : <<WithCls(e, cls)>>))
    [] OTHER -> Bind(CtlDef(a), LAMBDA d : Bind(Thin(d, Cif0Table), LAMBDA e : Bind(WithCls(e, cls), LAMBDA f :
                  IF Acked(f) THEN Bind(AckDef(b, f), LAMBDA g : IF Coin(1, 4) THEN <<g, f>> ELSE <<f, g>>) ELSE <<f>>)))
Exts == <<<<"hpp", "cpp">>, <<"hpp", "cpp">>, <<"hh", "cc">>, <<"h", "cxx">>>>
Info(nm, code, ps) == [name |-> nm, kind |-> "info", code |-> code, packets |-> ps]
PartNames(ps, is) == Cat([i \in 1..Len(is) |-> [j \in 1..Len(ps[is[i]]) |-> ps[is[i]][j].name]])
\* a definition file: the files it includes, the parts it holds, its information classes
F_(inc, own, infos) == [inc |-> inc, own |-> own, infos |-> infos]
Options(x) ==
  Bind(Pick(Exts), LAMBDA e :
    [hext |-> e[1], sext |-> e[2], ns |-> Pick(<<"", "one", "one::two">>), project |-> Coin(1, 3), sock |-> Pick(<<"tcp", "udp">>),
     dir |-> Pick(<<"out", "a-dir/out">>), absolute |-> Coin(1, 3), again |-> Coin(1, 3)])
Kinds == <<"data", "ctx", "ctl">>
Listed == {"info", "multi", "same", "incinfo", "codes", "diamond"}
KindOf(shape, i) ==
  CASE shape = "split" -> IF i < 3 THEN "ctl" ELSE Pick(Kinds)
    [] shape \in Listed -> IF i = 3 THEN Pick(<<"data", "ctx">>) ELSE IF i = 1 THEN Pick(<<"data", "ctl", "ctx">>) ELSE "data"
    [] OTHER -> Pick(Kinds)
\* a control packet and its acknowledgement, each on its own
Split(ps) == LET a == {j \in 1..Len(ps[1]) : ps[1][j].kind \in {"ack", "xack"}}
                 c == {j \in 1..Len(ps[1]) : j \notin a}
                 pick(J) == [k \in 1..Cardinality(J) |-> ps[1][CHOOSE j \in J : TRUE]]
             IN <<pick(c), pick(a), ps[3]>>
RunOf(shape) ==
  Bind([i \in 1..6 |-> RndName(i)], LAMBDA nm :
  Bind([i \in 1..6 |-> Str(Ident(nm[i]))], LAMBDA id :
  Bind([i \in 1..3 |-> KindOf(shape, i)], LAMBDA kd :
  Bind([i \in 1..3 |-> Part(kd[i], id[2*i - 1], id[2*i], shape \in {"multi", "same", "codes"})], LAMBDA ps0 :
  LET ps == IF shape = "split" THEN Split(ps0) ELSE ps0
      infoOf(w, code, is) == Info("Info" \o w, code, PartNames(ps, is))
      one(is) == F_(<<>>, is, <<>>)
      \* files and which of them are given to the generator
      fm == CASE shape = "one"   -> <<<<one(<<1, 2>>)>>, <<1>>>>
                 [] shape = "inc"   -> <<<<one(<<1>>), one(<<2>>), F_(<<2, 1>>, <<3>>, <<>>)>>, <<3>>>>
                 [] shape = "nest"  -> <<<<one(<<1>>), F_(<<1>>, <<2>>, <<>>), F_(<<2>>, <<3>>, <<>>)>>, <<3>>>>
                 [] shape = "split" -> IF Coin(1, 2) THEN <<<<one(<<1>>), F_(<<1>>, <<2, 3>>, <<>>)>>, <<2>>>>
                                       ELSE <<<<one(<<1>>), F_(<<1>>, <<2>>, <<infoOf("", 5, <<2, 1>>)>>)>>, <<2>>>>
                 [] shape = "diamond" -> <<<<one(<<1>>), F_(<<1>>, <<2>>, <<>>), F_(<<1, 2>>, <<3>>, IF Coin(2, 3) THEN <<infoOf("", 5, <<2, 3, 1>>)>> ELSE <<>>)>>, <<3>>>>
                 [] shape = "two"   -> <<<<one(<<1>>), one(<<3>>), F_(<<2>>, <<2>>, <<>>)>>, <<1, 3>>>>
                 [] shape = "three" -> <<<<one(<<1>>), one(<<2>>), one(<<3>>)>>, <<1, 2, 3>>>>
                 [] shape = "twice" -> <<<<one(<<1>>), F_(<<1>>, <<2>>, <<>>), F_(<<1>>, <<3>>, <<>>)>>, <<2, 3>>>>
                 [] shape = "info"  -> <<<<one(<<1>>), F_(<<1>>, <<2, 3>>, <<infoOf("", 5, IF Coin(1, 2) THEN <<3, 1>> ELSE <<1, 2, 3>>)>>)>>, <<2>>>>
                 [] shape = "incinfo" -> <<<<F_(<<>>, <<1, 2>>, <<infoOf("", 5, <<1>>)>>), F_(<<1>>, <<3>>, <<>>)>>, <<2>>>>
                 [] shape = "codes" -> <<<<F_(<<>>, <<1, 2>>, <<infoOf("X", 5, <<2, 1>>), infoOf("Y", 6, <<1>>)>>), F_(<<1>>, <<3>>, <<>>)>>, IF Coin(1, 2) THEN <<2>> ELSE <<1>>>>
                 [] shape = "multi" -> <<<<one(<<1>>), F_(<<1>>, <<2>>, <<infoOf("X", 5, <<2, 1>>)>>), F_(<<1>>, <<3>>, <<infoOf("Y", 6, <<1, 3>>)>>)>>, <<2, 3>>>>
                 [] OTHER           -> <<<<one(<<1>>), F_(<<1>>, <<2>>, <<infoOf("X", 5, <<2, 1>>)>>), F_(<<1>>, <<3>>, <<infoOf("Y", 5, <<1, 3>>)>>)>>, <<2, 3>>>>
  IN [shape |-> shape, parts |-> ps, files |-> fm[1], mains |-> fm[2], opts |-> Options(shape),
      \* the class names, the names as written and the file names
      names |-> [i \in 1..6 |-> [id |-> id[i], yaml |-> Str(nm[i]), file |-> Str(Snake(Ident(nm[i])))]]]))))
Shape_ == IOEnv.SHAPE

\* --- what the generator collects -----------------------------------------------------
\* what a definition file amounts to: everything in it and in the files it includes or, if it has information
\* classes, the classes they list, under their codes
RECURSIVE Yield(_)
Yield(f) ==
  LET m   == run.files[f]
      inc == [i \in 1..Len(m.inc) |-> Yield(m.inc[i])]
      all == Cat([i \in 1..Len(m.inc) |-> inc[i].ds]) \o Cat([i \in 1..Len(m.own) |-> run.parts[m.own[i]]])
      def(nm) == all[CHOOSE j \in 1..Len(all) : all[j].name = nm]
  IN IF m.infos = <<>> THEN [ds |-> all, info |-> \E i \in 1..Len(inc) : inc[i].info]
     ELSE [ds |-> Cat([i \in 1..Len(m.infos) |-> [j \in 1..Len(m.infos[i].packets) |->
                        [def(m.infos[i].packets[j]) EXCEPT !.clsid.ic = m.infos[i].code]]]),
           info |-> TRUE]
\* a class met again under another information code carries any; under the same it is an error
RECURSIVE Collect(_, _)
Collect(p, ys) ==
  IF ys = <<>> THEN [ok |-> TRUE, pk |-> p]
  ELSE LET same == {i \in 1..Len(p) : p[i].name = Head(ys).name}
       IN IF same = {} THEN Collect(Append(p, Head(ys)), Tail(ys))
          ELSE LET i == CHOOSE i \in same : TRUE
               IN IF p[i].clsid.ic = Head(ys).clsid.ic THEN [ok |-> FALSE, pk |-> p]
                  ELSE Collect([p EXCEPT ![i].clsid.multi = TRUE], Tail(ys))
FileOf(id) == (CHOOSE x \in Range(run.names) : x.id = id).file
Paths(p, withinfo) ==
  LET o == run.opts
      inc == IF o.project THEN "include/" ELSE ""
  IN {(IF o.project THEN "include/packets/" ELSE "") \o FileOf(p[i].name) \o "." \o o.hext : i \in 1..Len(p)}
     \cup {(IF o.project THEN "src/packets/" ELSE "") \o FileOf(p[i].name) \o "." \o o.sext : i \in 1..Len(p)}
     \cup (IF o.project THEN {"CMakeLists.txt", "src/CMakeLists.txt", "src/bin/CMakeLists.txt", "src/packets/CMakeLists.txt", "src/bin/main.cpp"} ELSE {})
     \cup (IF withinfo THEN {inc \o x \o "." \o o.hext : x \in {"Controller", "Controllee", "Controllee_base"}} ELSE {})

\* what the controller of an information class offers for a class: the acknowledgement classes a
\* command returns, whoever answers it, or a function that sends and a listener that receives
AcksTo(p, d) ==
  LET as == {i \in 1..Len(p) : p[i].kind \in {"ack", "xack"} /\ p[i].to = d.name}
  IN IF as = {} THEN <<>>
     ELSE LET a == p[CHOOSE i \in as : TRUE].name
          IN (IF ReqOn(d, "v") THEN <<a \o "VX">> ELSE <<>>) \o (IF ReqOn(d, "x") THEN <<a \o "VX">> ELSE <<>>) \o (IF ReqOn(d, "s") THEN <<a \o "S">> ELSE <<>>)
Talk(p, d) == [cls |-> d.name, file |-> FileOf(d.name),
               role |-> CASE d.kind \in {"control", "xcontrol"} -> "command" [] d.kind \in {"ack", "xack"} -> "ack" [] OTHER -> "stream",
               acks |-> IF d.kind \in {"control", "xcontrol"} THEN AcksTo(p, d) ELSE <<>>]

RInit == n = 0 /\ run = [shape |-> ""] /\ pk = <<>> /\ info = FALSE /\ out = {} /\ st = "draw"
Draw == /\ st = "draw"
        /\ \E x \in {RunOf(Shape_)} : run' = x
        /\ st' = "run"
        /\ UNCHANGED <<n, pk, info, out>>
Work == /\ st = "run" /\ n < Len(run.mains)
        /\ LET y == Yield(run.mains[n + 1])
               c == Collect(pk, y.ds)
           IN /\ pk' = c.pk
              /\ info' = (info \/ y.info)
              /\ st' = IF c.ok THEN "run" ELSE "rejected"
              /\ out' = IF c.ok THEN out \cup Paths(c.pk, info') ELSE out
        /\ n' = n + 1 /\ UNCHANGED run
Done == /\ st = "rejected" \/ (st = "run" /\ n = Len(run.mains))
        /\ st' = "end"
        /\ Emit([run |-> run, ok |-> st # "rejected", paths |-> out, defs |-> pk, info |-> info,
                 talk |-> IF info THEN [i \in 1..Len(pk) |-> Talk(pk, pk[i])] ELSE <<>>])
        /\ UNCHANGED <<n, run, pk, info, out>>
RNext == Draw \/ Work \/ Done
RSpec == RInit /\ [][RNext]_<<n, run, pk, info, out, st>>

\* every class has files of its own, and no class is collected twice
Distinct == /\ \A i, j \in 1..Len(pk) : i # j => pk[i].name # pk[j].name /\ FileOf(pk[i].name) # FileOf(pk[j].name)
\* nothing that was written is lost, and all that was collected without error is written
Written == st = "run" /\ n > 0 => Paths(pk, info) \subseteq out
Grows == [][out \subseteq out' /\ Len(pk) <= Len(pk') /\ \A i \in 1..Len(pk) : pk[i].name = pk'[i].name]_<<n, run, pk, info, out, st>>
=============================================================================
