---------------------------- MODULE CodecTable ----------------------------
(* The header-library classes that are packed words, identifiers or         *)
(* structured fields: the members of each and their places, from VITA 49.2. *)
EXTENDS Fields

B1(names, hi) == [i \in 1..Len(names) |-> M(names[i], hi - i + 1, 1)]
\* indicator words: one bit per named field, at its table position
Ind(table) == [i \in 1..Len(table) |-> M(table[i][1], table[i][2], 1)]
HeadCommon == <<M("packet_type",31,4), M("class_id_enable",27,1), M("tsi",23,2), M("tsf",21,2),
                M("packet_count",19,4), M("packet_size",15,16)>>
CamCommon == <<M("controllee_enable",31,1), M("controllee_format",30,1), M("controller_enable",29,1),
               M("controller_format",28,1), M("permit_partial",27,1), M("permit_warnings",26,1),
               M("permit_errors",25,1), M("action_mode",24,2), M("nack_only",22,1), M("timing_control",14,3)>>
If0Common == <<M("change_indicator",31,1)>> \o Ind(Cif0Table)
If0Links(p) == <<M(p \o "7_enable",7,1), M(p \o "3_enable",3,1), M(p \o "2_enable",2,1), M(p \o "1_enable",1,1)>>
\* bits of the indicator words the definition language does not reach
If1All == Ind(Cif1Table) \o <<M("pointing_vector_structure",28,1), M("spatial_reference_type",26,1), M("array_of_cifs",11,1)>>
If3All == <<M("timestamp_details",31,1), M("timestamp_skew",30,1), M("rise_time",27,1), M("fall_time",26,1),
            M("offset_time",25,1), M("pulse_width",24,1), M("period",23,1), M("duration",22,1), M("dwell",21,1),
            M("jitter",20,1), M("age",17,1), M("shelf_life",16,1), M("air_temperature",7,1),
            M("sea_ground_temperature",6,1), M("humidity",5,1), M("barometric_pressure",4,1),
            M("sea_swell_state",3,1), M("tropospheric_state",2,1), M("network_id",1,1)>>

Cl(name, cxx, ps) == [name |-> name, cxx |-> "vrtgen::packing::" \o cxx, ps |-> ps, t |-> "", ind |-> FALSE]
In(name, ms) == [Cl(name, name, <<W(ms)>>) EXCEPT !.ind = TRUE]
St(name, cxx) == [Cl(name, cxx, TypeDefs[name]) EXCEPT !.t = name]

Words == <<
  Cl("Header", "Header", <<W(HeadCommon)>>),
  Cl("DataHeader", "DataHeader", <<W(HeadCommon \o <<M("trailer_included",26,1), M("not_v49d0",25,1), M("spectrum_or_time",24,1)>>)>>),
  Cl("ContextHeader", "ContextHeader", <<W(HeadCommon \o <<M("not_v49d0",25,1), M("tsm",24,1)>>)>>),
  Cl("CommandHeader", "CommandHeader", <<W(HeadCommon \o <<M("acknowledge_packet",26,1), M("cancellation_packet",24,1)>>)>>),
  Cl("ClassIdentifier", "ClassIdentifier", <<W(<<M("pad_bits",31,5), M("oui",23,24)>>), W(<<M("information_code",31,16), M("packet_code",15,16)>>)>>),
  Cl("ControlCAM", "ControlCAM", <<W(CamCommon \o <<M("req_v",20,1), M("req_x",19,1), M("req_s",18,1), M("req_w",17,1), M("req_er",16,1)>>)>>),
  Cl("AcknowledgeCAM", "AcknowledgeCAM", <<W(CamCommon \o <<M("ack_v",20,1), M("ack_x",19,1), M("ack_s",18,1), M("ack_w",17,1), M("ack_er",16,1),
       M("partial_action",11,1), M("scheduled_or_executed",10,1)>>)>>),
  In("CIF0", If0Common \o If0Links("cif")), In("WIF0", If0Common \o If0Links("wif")), In("EIF0", If0Common \o If0Links("eif")),
  In("CIF1", If1All), In("WEIF1", If1All), In("CIF2", Ind(Cif2Table)), In("WEIF2", Ind(Cif2Table)), In("WEIF3", If3All),
  In("CIF7", Ind(Cif7Table)), In("WEIF7", Ind(Cif7Table)), In("WarningErrorFields", WEFMembers), In("SectorStepScanCIF", SSSCIFMembers),
  Cl("Belief", "Belief", <<W(<<M("belief_percent",7,8)>>)>>),
  Cl("Probability", "Probability", <<W(<<M("probability_function",15,8), M("probability_percent",7,8)>>)>>) >>
Pairs == << St("StateEventIndicators", "StateEventIndicators"), St("Trailer", "Trailer") >>
Fixed == << St("Gain", "Gain"), St("DIFIReferenceLevel", "difi::ReferenceLevel"), St("DeviceIdentifier", "DeviceIdentifier"),
  St("PayloadFormat", "PayloadFormat"), St("Geolocation", "Geolocation"), St("Ephemeris", "Ephemeris"),
  St("Polarization", "Polarization"), St("PointingVector", "PointingVector"), St("BeamWidth", "BeamWidth"),
  St("EbNoBER", "EbNoBER"), St("Threshold", "Threshold"), St("InterceptPoints", "InterceptPoints"), St("SNRNoise", "SNRNoise"),
  St("Spectrum", "Spectrum"), St("VersionInformation", "VersionInformation"), St("DIFIBufferSize", "difi::BufferSize") >>
Varying == << St("GPS_ASCII", "GPS_ASCII"), St("ContextAssociationLists", "ContextAssociationLists"),
  [Cl("SectorStepScan", "SectorStepScan<Rec8>", <<R("array_size",4), W(<<M("header_size",31,8), M("num_words_record",23,12)>>),
       W([i \in 1..Len(SSSCIFMembers) |-> [SSSCIFMembers[i] EXCEPT !.m = "cif_" \o @]]), L("records",8)>>) EXCEPT !.t = "sss"],
  St("IndexList8", "IndexList<uint8_t>"), St("IndexList16", "IndexList<uint16_t>"), St("IndexList32", "IndexList<uint32_t>") >>
Classes == Words \o Pairs \o Fixed \o Varying
IsVar(c) == c.t \in VarTypes \cup {"sss"}
TyOf(c) == IF c.t = "sss" THEN [t |-> "sss", rec |-> 8, sub |-> <<>>, rndrec |-> <<>>] ELSE [t |-> c.t]
Enums == {"packet_type","tsi","tsf","tsm","spectrum_or_time","controllee_format","controller_format","action_mode",
          "timing_control","packing_method","real_complex_type","data_item_format","sample_frame"}
\* pair members the interface offers no way to clear
NoReset == {"sample_frame", "associated_context_packets_count"}

\* --- members and their places ---------------------------------------------
RECURSIVE Flat(_, _)
Flat(ps, off) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps)
           here == CASE p.k = "w" -> [i \in 1..Len(p.ms) |-> p.ms[i] @@ [k |-> IF p.ms[i].en >= 0 THEN "p" ELSE "w", off |-> off, rx |-> -1]]
                     [] p.k = "r" -> <<[k |-> "r", m |-> p.m, n |-> p.n, rx |-> p.rx, off |-> off]>>
                     [] p.k = "l" -> <<[k |-> "l", m |-> p.m, n |-> p.n, rx |-> -1, off |-> off]>>
                     [] OTHER -> <<>>
       IN here \o Flat(Tail(ps), off + (IF p.k = "l" THEN 0 ELSE PartSize(p)))
Members(c) == Flat(c.ps, 0)

\* bit b (31 = most significant) of a member's word is one of the bits hi-n+1 .. hi
MBits(m) == ((m.hi - m.n + 1)..m.hi) \cup (IF m.en >= 0 THEN (m.en - m.enn + 1)..m.en ELSE {})
\* the standard assigns every bit to one member
ASSUME \A i \in 1..Len(Classes) : LET ms == Members(Classes[i]) IN
         \A x, y \in 1..Len(ms) : (x # y /\ ms[x].k \in {"w","p"} /\ ms[y].k \in {"w","p"} /\ ms[x].off = ms[y].off)
            => MBits(ms[x]) \cap MBits(ms[y]) = {}
=============================================================================
