------------------------------ MODULE Structs ------------------------------
(* The field formats of VITA 49.2 (and DIFI 1.2) that the library offers:   *)
(* for every format the list of its parts in wire order.                    *)
(*                                                                          *)
(* A value of a format is a function from member names to member values:    *)
(*   member of a packed word      <<n>>          (n a small natural)        *)
(*   pair member (enable+value)   <<>> when not enabled, else <<n>>         *)
(*   raw member                   big-endian sequence of bytes              *)
(*   list member                  sequence of big-endian byte sequences     *)
(* Encode and Decode below are the only definition of the wire format the   *)
(* checks use; nothing is taken from the implementation.                    *)
EXTENDS Bytes, TLC

\* --- part constructors ------------------------------------------------------
\* member of a 32-bit word: top bit hi, width n; bias b: stored value is v - b
M(m, hi, n)      == [m |-> m, hi |-> hi, n |-> n, b |-> 0, en |-> -1, enn |-> 0]
MB(m, hi, n)     == [m |-> m, hi |-> hi, n |-> n, b |-> 1, en |-> -1, enn |-> 0]
\* value/enable pair: value at hi (n bits), enable with top bit en (enn bits, all ones)
MP(m, hi, n, en, enn) == [m |-> m, hi |-> hi, n |-> n, b |-> 0, en |-> en, enn |-> enn]
W(ms)            == [k |-> "w", ms |-> ms]
\* raw big-endian member of n bytes; rx: radix point (-1: an integer)
R(m, n)          == [k |-> "r", m |-> m, n |-> n, rx |-> -1]
F(m, n, rx)      == [k |-> "r", m |-> m, n |-> n, rx |-> rx]
\* an unsigned quantity (radix point 100 + rx)
FU(m, n, rx)     == F(m, n, 100 + rx)
Z(n)             == [k |-> "z", n |-> n]
\* list members: L(m, n, count member is implicit in the counter word)
L(m, n)          == [k |-> "l", m |-> m, n |-> n]

SEIMembers == <<MP("calibrated_time",19,1,31,1), MP("valid_data",18,1,30,1),
                MP("reference_lock",17,1,29,1), MP("agc_mgc",16,1,28,1),
                MP("detected_signal",15,1,27,1), MP("spectral_inversion",14,1,26,1),
                MP("over_range",13,1,25,1), MP("sample_loss",12,1,24,1)>>
TrailerStd == SEIMembers \o <<MP("sample_frame",11,2,23,2),
                              MP("associated_context_packets_count",6,7,7,1)>>

GeoHead == <<W(<<M("tsi",27,2), M("tsf",25,2), M("manufacturer_oui",23,24)>>),
             R("integer_timestamp",4), R("fractional_timestamp",8)>>

SSSCIFMembers == <<M("sector_number",31,1), M("f1_start_frequency",30,1), M("f2_stop_frequency",29,1),
                   M("resolution_bandwidth",28,1), M("tune_step_size",27,1), M("number_points",26,1),
                   M("default_gain",25,1), M("threshold",24,1), M("dwell_time",23,1),
                   M("start_time",22,1), M("time_3",21,1), M("time_4",20,1)>>

WEFMembers == <<M("field_not_executed",31,1), M("device_failure",30,1), M("erroneous_field",29,1),
   M("parameter_out_of_range",28,1), M("parameter_unsupported_precision",27,1),
   M("field_value_invalid",26,1), M("timestamp_problem",25,1), M("hazardous_power_levels",24,1),
   M("distortion",23,1), M("in_band_power_compliance",22,1), M("out_of_band_power_compliance",21,1),
   M("cosite_interference",20,1), M("regional_interference",19,1)>>

\* --- the table --------------------------------------------------------------
TypeDefs == [
  u32    |-> <<R("v",4)>>,
  i32    |-> <<R("v",4)>>,
  u64    |-> <<R("v",8)>>,
  i64    |-> <<R("v",8)>>,
  id16   |-> <<Z(2), R("v",2)>>,
  fx16r7 |-> <<Z(2), F("v",2,7)>>,
  fx16r6 |-> <<Z(2), F("v",2,6)>>,
  fx32r6 |-> <<F("v",4,6)>>,
  fx64r20 |-> <<F("v",8,20)>>,
  uuid   |-> <<R("v",16)>>,
  Belief          |-> <<W(<<M("belief_percent",7,8)>>)>>,
  Probability     |-> <<W(<<M("probability_function",15,8), M("probability_percent",7,8)>>)>>,
  Gain            |-> <<F("stage_2",2,7), F("stage_1",2,7)>>,
  DIFIReferenceLevel |-> <<F("scaling_level",2,7), F("reference_level",2,7)>>,
  DeviceIdentifier |-> <<W(<<M("manufacturer_oui",23,24)>>), W(<<M("device_code",15,16)>>)>>,
  StateEventIndicators |-> <<W(SEIMembers)>>,
  PayloadFormat |-> <<W(<<M("packing_method",31,1), M("real_complex_type",30,2), M("data_item_format",28,5),
                          M("repeat_indicator",23,1), M("event_tag_size",22,3), M("channel_tag_size",19,4),
                          M("data_item_fraction_size",15,4), MB("item_packing_field_size",11,6),
                          MB("data_item_size",5,6)>>),
                      W(<<MB("repeat_count",31,16), MB("vector_size",15,16)>>)>>,
  Geolocation |-> GeoHead \o <<F("latitude",4,22), F("longitude",4,22), F("altitude",4,5),
                    F("speed_over_ground",4,16), F("heading_angle",4,22), F("track_angle",4,22),
                    F("magnetic_variation",4,22)>>,
  Ephemeris   |-> GeoHead \o <<F("position_x",4,5), F("position_y",4,5), F("position_z",4,5),
                    F("attitude_alpha",4,22), F("attitude_beta",4,22), F("attitude_phi",4,22),
                    F("velocity_dx",4,16), F("velocity_dy",4,16), F("velocity_dz",4,16)>>,
  Polarization    |-> <<F("tilt_angle",2,13), F("ellipticity_angle",2,13)>>,
  PointingVector  |-> <<F("elevation_angle",2,7), FU("azimuthal_angle",2,7)>>,
  BeamWidth       |-> <<F("horizontal",2,7), F("vertical",2,7)>>,
  EbNoBER         |-> <<F("ebno",2,7), F("ber",2,7)>>,
  Threshold       |-> <<F("stage_2",2,7), F("stage_1",2,7)>>,
  InterceptPoints |-> <<F("second_order",2,7), F("third_order",2,7)>>,
  SNRNoise        |-> <<F("snr",2,7), F("noise",2,7)>>,
  Spectrum |-> <<W(<<M("window_time",19,4), M("averaging_type",15,8), M("spectrum_type",7,8)>>),
                 W(<<M("window_type",7,8)>>),
                 R("num_transform_points",4), R("num_window_points",4),
                 F("resolution",8,20), F("span",8,20),
                 R("num_averages",4), R("weighting_factor",4),
                 R("f1_index",4), R("f2_index",4), R("window_time_delta",4)>>,
  VersionInformation |-> <<W(<<M("year",31,7), M("day",24,9), M("revision",15,6), M("user_defined",9,10)>>)>>,
  DIFIBufferSize |-> <<R("buffer_size",8), W(<<M("level",15,12), M("overflow",3,1), M("nearly_full",2,1),
                                               M("nearly_empty",1,1), M("underflow",0,1)>>)>>,
  WarningErrorFields |-> <<W(WEFMembers)>>,
  Trailer |-> <<W(TrailerStd)>>,
  \* variable-length formats: the members; their layout is in EncVar/DecVar
  GPS_ASCII |-> <<W(<<M("manufacturer_oui",23,24)>>), L("ascii_sentences",1)>>,
  ContextAssociationLists |-> <<L("source_list",4), L("system_list",4), L("vector_component_list",4),
                                L("async_channel_list",4), L("async_channel_tag_list",4)>>,
  IndexList8  |-> <<R("total_size",4), L("entries",1)>>,
  IndexList16 |-> <<R("total_size",4), L("entries",2)>>,
  IndexList32 |-> <<R("total_size",4), L("entries",4)>>
]

VarTypes == {"GPS_ASCII", "ContextAssociationLists", "IndexList8", "IndexList16", "IndexList32"}

\* --- fixed-size formats -----------------------------------------------------
PartSize(p) == IF p.k = "w" THEN 4 ELSE p.n

EncMember(m, v) ==
  IF m.en >= 0
  THEN IF v = <<>> THEN <<>>
       ELSE <<[v |-> v[1], hi |-> m.hi, n |-> m.n],
              [v |-> P2[m.enn] - 1, hi |-> m.en, n |-> m.enn]>>
  ELSE <<[v |-> (v[1] - m.b + P2[m.n]) % P2[m.n], hi |-> m.hi, n |-> m.n]>>

EncPart(p, val) ==
  CASE p.k = "w" -> Word(Cat([i \in 1..Len(p.ms) |-> EncMember(p.ms[i], val[p.ms[i].m])]))
    [] p.k = "r" -> val[p.m]
    [] p.k = "z" -> Zeros(p.n)

EncParts(ps, val) == Cat([i \in 1..Len(ps) |-> EncPart(ps[i], val)])

DecMember(m, w) ==
  IF m.en >= 0
  THEN IF Extract(w, m.en, m.enn) = P2[m.enn] - 1 THEN <<Extract(w, m.hi, m.n)>> ELSE <<>>
  ELSE <<Extract(w, m.hi, m.n) + m.b>>

EmptyVal == [x \in {} |-> <<>>]

\* the function member name -> value decoded from bytes b
RECURSIVE DecParts(_, _)
DecParts(ps, b) ==
  IF ps = <<>> THEN EmptyVal
  ELSE LET p    == Head(ps)
           n    == PartSize(p)
           here == CASE p.k = "w" -> [x \in {p.ms[i].m : i \in 1..Len(p.ms)} |->
                                        LET m == CHOOSE y \in Range(p.ms) : y.m = x IN DecMember(m, Sub(b,1,4))]
                     [] p.k = "r" -> (p.m :> Sub(b, 1, n))
                     [] p.k = "z" -> EmptyVal
       IN here @@ DecParts(Tail(ps), SubSeq(b, n+1, Len(b)))

FixedSize(ps) == FoldSeq(LAMBDA p, acc : acc + PartSize(p), 0, ps)

\* --- variable-length formats --------------------------------------------------
ListWord(a, ahi, an, c, chi, cn) == Word(<<[v |-> a, hi |-> ahi, n |-> an], [v |-> c, hi |-> chi, n |-> cn]>>)
EntrySizeOf(t) == CASE t = "IndexList8" -> 1 [] t = "IndexList16" -> 2 [] t = "IndexList32" -> 4
EntrySizeCode(t) == CASE t = "IndexList8" -> 1 [] t = "IndexList16" -> 2 [] t = "IndexList32" -> 4

EncVar(t, val) ==
  CASE t = "GPS_ASCII" ->
         LET body == Padded(Cat(val["ascii_sentences"]))
         IN Word(<<[v |-> val["manufacturer_oui"][1], hi |-> 23, n |-> 24]>>)
            \o BE(Len(body) \div 4, 4) \o body
    [] t = "ContextAssociationLists" ->
         ListWord(Len(val["source_list"]), 24, 9, Len(val["system_list"]), 8, 9)
         \o Word(<<[v |-> Len(val["vector_component_list"]), hi |-> 31, n |-> 16],
                   [v |-> IF val["async_channel_tag_list"] = <<>> THEN 0 ELSE 1, hi |-> 15, n |-> 1],
                   [v |-> Len(val["async_channel_list"]), hi |-> 14, n |-> 15]>>)
         \o Cat(val["source_list"]) \o Cat(val["system_list"]) \o Cat(val["vector_component_list"])
         \o Cat(val["async_channel_list"]) \o Cat(val["async_channel_tag_list"])
    [] OTHER ->
         val["total_size"] \o ListWord(EntrySizeCode(t), 31, 4, Len(val["entries"]), 19, 20)
         \o Padded(Cat(val["entries"]))

\* n items of k bytes from position p of b
Items(b, p, k, n) == [i \in 1..n |-> Sub(b, p + (i-1)*k, k)]

\* <<value, bytes used>>
DecVar(t, b) ==
  CASE t = "GPS_ASCII" ->
         LET n == FromBE(Sub(b, 5, 4)) * 4
         IN <<("manufacturer_oui" :> <<Extract(Sub(b,1,4), 23, 24)>>) @@
              ("ascii_sentences" :> Items(b, 9, 1, n)), 8 + n>>
    [] t = "ContextAssociationLists" ->
         LET w1 == Sub(b,1,4)
             w2 == Sub(b,5,4)
             s  == Extract(w1, 24, 9)
             y  == Extract(w1, 8, 9)
             v  == Extract(w2, 31, 16)
             a  == Extract(w2, 14, 15)
             g  == IF Extract(w2, 15, 1) = 1 THEN a ELSE 0
         IN <<("source_list" :> Items(b, 9, 4, s)) @@ ("system_list" :> Items(b, 9+4*s, 4, y)) @@
              ("vector_component_list" :> Items(b, 9+4*(s+y), 4, v)) @@
              ("async_channel_list" :> Items(b, 9+4*(s+y+v), 4, a)) @@
              ("async_channel_tag_list" :> Items(b, 9+4*(s+y+v+a), 4, g)), 8 + 4*(s+y+v+a+g)>>
    [] OTHER ->
         LET k == EntrySizeOf(t)
             n == Extract(Sub(b,5,4), 19, 20)
         IN <<("total_size" :> Sub(b,1,4)) @@ ("entries" :> Items(b, 9, k, n)), 8 + n*k + Pad4(n*k)>>

\* The value as it is reported once it has been through the wire: GPS ASCII
\* sentences come back padded to whole words.
Canon(t, val) ==
  IF t = "GPS_ASCII"
  THEN [val EXCEPT !["ascii_sentences"] = @ \o [i \in 1..Pad4(Len(@)) |-> <<0>>]]
  ELSE val

\* A user-defined format ("parts" given by the definition) is passed as a record
\* [t |-> "user", parts |-> ...]; a library format as [t |-> name].
EncT(ty, val) == CASE ty.t = "user" -> EncParts(ty.parts, val)
                   [] ty.t = "sss"  ->
                        val["array_size"] \o Word(<<[v |-> val["header_size"][1], hi |-> 31, n |-> 8],
                            [v |-> val["num_words_record"][1], hi |-> 23, n |-> 12],
                            [v |-> Len(val["records"]), hi |-> 11, n |-> 12]>>)
                        \o Word([i \in 1..Len(SSSCIFMembers) |->
                             [v |-> val["cif_" \o SSSCIFMembers[i].m][1], hi |-> SSSCIFMembers[i].hi, n |-> 1]])
                        \o Cat(val["records"])
                   [] ty.t \in VarTypes -> EncVar(ty.t, val)
                   [] OTHER -> EncParts(TypeDefs[ty.t], val)
DecT(ty, b) == CASE ty.t = "user" -> <<DecParts(ty.parts, b), FixedSize(ty.parts)>>
                 [] ty.t = "sss" ->
                      LET n == Extract(Sub(b,5,4), 11, 12)
                      IN <<("array_size" :> Sub(b,1,4)) @@ ("header_size" :> <<Extract(Sub(b,5,4), 31, 8)>>) @@
                           ("num_words_record" :> <<Extract(Sub(b,5,4), 23, 12)>>) @@
                           [x \in {"cif_" \o SSSCIFMembers[i].m : i \in 1..Len(SSSCIFMembers)} |->
                              <<Extract(Sub(b,9,4), (CHOOSE y \in Range(SSSCIFMembers) : "cif_" \o y.m = x).hi, 1)>>] @@
                           ("records" :> Items(b, 13, ty.rec, n)), 12 + n * ty.rec>>
                 [] ty.t \in VarTypes -> DecVar(ty.t, b)
                 [] OTHER -> <<DecParts(TypeDefs[ty.t], b), FixedSize(TypeDefs[ty.t])>>
\* the number of bytes a value at the front of b takes up, however short b is
CapCount(w) == IF w[1] > 0 \/ w[2] > 15 THEN 10000000 ELSE FromBE(w)
ExtT(ty, b) ==
  CASE ty.t = "user" -> FixedSize(ty.parts)
    [] ty.t = "sss" -> IF Len(b) < 12 THEN 12 ELSE 12 + Extract(Sub(b,5,4), 11, 12) * ty.rec
    [] ty.t \in VarTypes /\ Len(b) < 8 -> 8
    [] ty.t = "GPS_ASCII" -> 8 + 4 * CapCount(Sub(b,5,4))
    [] ty.t = "ContextAssociationLists" ->
         LET w1 == Sub(b,1,4)
             w2 == Sub(b,5,4)
         IN 8 + 4 * (Extract(w1, 24, 9) + Extract(w1, 8, 9) + Extract(w2, 31, 16)
                     + Extract(w2, 14, 15) * (1 + Extract(w2, 15, 1)))
    [] ty.t \in VarTypes -> LET k == EntrySizeOf(ty.t) * Extract(Sub(b,5,4), 19, 20) IN 8 + k + Pad4(k)
    [] OTHER -> FixedSize(TypeDefs[ty.t])
PartsOf(ty) == IF ty.t = "user" THEN ty.parts ELSE TypeDefs[ty.t]

\* --- random values (simulation only) -----------------------------------------
\* TLC evaluates LET definitions anew at each use; random draws are bound by value
Bind(v, Fn(_)) == CHOOSE y \in {TLCEval(Fn(x)) : x \in {TLCEval(v)}} : TRUE
RndByte(x) == RandomElement(0..255)
RndRaw(n) == Bind(RandomElement(1..9), LAMBDA c :
       CASE c = 1 -> Fill(n, 255)
       [] c = 2 -> <<128>> \o Zeros(n-1)                 \* most negative
       [] c = 3 -> IF n = 1 THEN <<127>> ELSE <<127>> \o Fill(n-1, 255)
       [] c = 4 -> Zeros(n-1) \o <<1>>
       [] c = 5 -> Zeros(n)
       [] OTHER -> [i \in 1..n |-> RndByte(i)])
\* 64-bit fixed-point values are exchanged through floating point, which carries 53 bits:
\* 48 significant bits at either end of the range
LowFx(n) == IF n < 8 THEN RndRaw(n)
            ELSE Bind(RndRaw(6), LAMBDA r : (IF r[1] >= 128 THEN <<255,255>> ELSE <<0,0>>) \o r)
RndFx(n) == IF n < 8 THEN RndRaw(n)
            ELSE IF RandomElement(1..3) = 1 THEN RndRaw(6) \o <<0,0>> ELSE LowFx(n)
RndBits(n) == Bind(RandomElement(1..4), LAMBDA c :
              CASE c = 1 -> P2[n] - 1 [] c = 2 -> P2[n-1] [] OTHER -> RandomElement(0..(P2[n]-1)))
\* enumerators with fewer values than their width allows
Legal(m) == CASE m = "real_complex_type" -> 2 [] m = "tsi" -> 3 [] m = "tsf" -> 3
              [] m = "sample_frame" -> 3 [] OTHER -> -1
RndMember(m) ==
  IF m.en >= 0 THEN (IF RandomElement(1..4) = 1 THEN <<>> ELSE <<IF "lim" \in DOMAIN m THEN RandomElement(0..m.lim) ELSE RndBits(m.n)>>)
  ELSE IF "lim" \in DOMAIN m THEN <<RandomElement(0..m.lim)>>
  ELSE IF Legal(m.m) >= 0 THEN <<RandomElement(0..Legal(m.m))>>
  ELSE IF m.b = 1 THEN Bind(RndBits(m.n), LAMBDA r : <<IF r = 65535 THEN r ELSE r + m.b>>)
  ELSE <<RndBits(m.n)>>
RndList(n, len) == [i \in 1..len |-> RndRaw(n)]
RndLen(x) == Bind(RandomElement(1..6), LAMBDA c : IF c = 1 THEN 0 ELSE IF c = 2 THEN RandomElement(6..17) ELSE RandomElement(1..5))
RECURSIVE RndParts(_)
RndParts(ps) ==
  IF ps = <<>> THEN EmptyVal
  ELSE LET p == Head(ps)
           here == CASE p.k = "w" -> [x \in {p.ms[i].m : i \in 1..Len(p.ms)} |->
                                        RndMember(CHOOSE y \in Range(p.ms) : y.m = x)]
                     [] p.k = "r" -> (p.m :> (IF p.rx >= 0 THEN RndFx(p.n) ELSE RndRaw(p.n)))
                     [] p.k = "l" -> (p.m :> RndList(p.n, RndLen(p)))
                     [] OTHER -> EmptyVal
       IN here @@ RndParts(Tail(ps))
RndT(ty) ==
  CASE ty.t = "ContextAssociationLists" ->
         \* the tag list, when present, has one entry per channel
         Bind(RndParts(TypeDefs[ty.t]), LAMBDA v :
            [v EXCEPT !["async_channel_tag_list"] = IF RandomElement({TRUE,FALSE}) THEN RndList(4, Len(v["async_channel_list"])) ELSE <<>>])
    [] ty.t = "sss" ->
         [x \in {"cif_" \o SSSCIFMembers[i].m : i \in 1..Len(SSSCIFMembers)} |->
             LET m == CHOOSE y \in Range(SSSCIFMembers) : "cif_" \o y.m = x IN <<IF m.m \in Range(ty.sub) THEN 1 ELSE 0>>] @@
         ("array_size" :> RndRaw(4)) @@ ("header_size" :> <<RndBits(8)>>) @@ ("num_words_record" :> <<RndBits(12)>>) @@
         ("records" :> [i \in 1..RandomElement(0..4) |-> ty.rndrec[1] ])
    [] OTHER -> RndParts(PartsOf(ty))

\* --- the initial ("all zero") value ------------------------------------------
Init0Member(m) == IF m.en >= 0 THEN <<>> ELSE <<m.b>>
RECURSIVE ZeroParts(_)
ZeroParts(ps) ==
  IF ps = <<>> THEN EmptyVal
  ELSE LET p == Head(ps)
           here == CASE p.k = "w" -> [x \in {p.ms[i].m : i \in 1..Len(p.ms)} |->
                                        Init0Member(CHOOSE y \in Range(p.ms) : y.m = x)]
                     [] p.k = "r" -> (p.m :> Zeros(p.n))
                     [] p.k = "l" -> (p.m :> <<>>)
                     [] OTHER -> EmptyVal
       IN here @@ ZeroParts(Tail(ps))
\* Geolocation and Ephemeris start with every quantity "unspecified"
Unspec4 == <<127,255,255,255>>
ZeroT(ty) ==
  IF ty.t \in {"Geolocation", "Ephemeris"}
  THEN [x \in DOMAIN ZeroParts(TypeDefs[ty.t]) |->
          IF x \in {"tsi","tsf","manufacturer_oui"} THEN <<0>>
          ELSE IF x = "integer_timestamp" THEN Fill(4,255)
          ELSE IF x = "fractional_timestamp" THEN Fill(8,255) ELSE Unspec4]
  ELSE IF ty.t = "EbNoBER" THEN ("ebno" :> <<127,255>>) @@ ("ber" :> <<127,255>>)
  ELSE IF ty.t = "SNRNoise" THEN ("snr" :> <<127,255>>) @@ ("noise" :> <<0,0>>)
  ELSE ZeroParts(PartsOf(ty))
=============================================================================
