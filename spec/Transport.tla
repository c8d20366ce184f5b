----------------------------- MODULE Transport -----------------------------
(* The socket wrappers: endpoints, datagram sockets and stream sockets on   *)
(* one host.  A behaviour is a history of calls on the objects; each call   *)
(* is printed with the outcome the wrappers owe their user, and lib/        *)
(* sockcheck.py replays the histories into the real classes over loopback.  *)
EXTENDS Bytes, Json, IOUtils, TLC

VARIABLES kind, n,
          ep,        \* the endpoint object: <<address octets, port>>
          u,         \* datagram sockets
          gen,       \* incarnations so far
          sent, got, \* ghost: per incarnation, messages sent to and received by it
          L, C,      \* listener, clients
          conn       \* connections
vars == <<kind, n, ep, u, gen, sent, got, L, C, conn>>

Rec(r) == PrintT("@" \o ToJson(r))
Pick(S) == RandomElement(S)

\* ------------------------------------------------------------------ endpoints
\* dotted text, well formed or not; the octets it stands for, or <<>>
Octets == {<<Pick(0..255), Pick(0..255), Pick(0..255), Pick(0..255)>>,
           <<127, 0, 0, 1>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<1, 0, 0, Pick(0..255)>>, <<224, 0, 0, 1>>, <<9, 99, 100, 250>>}
Dot(o) == ToString(o[1]) \o "." \o ToString(o[2]) \o "." \o ToString(o[3]) \o "." \o ToString(o[4])
BadText == {"256.1.1.1", "1.2.3", "1.2.3.4.5", "a.b.c.d", " 1.2.3.4", "1.2.3.4 ", "1..2.3", "-1.2.3.4", "1.2.3.+4", "localhost",
            "1.2.3.4:80", "0x7f.0.0.1", "127.1", ".", "1.2.3.", "::1", "1.2.3.1000"}
\* IPv6: eight groups written out in full
Hex(v) == LET d == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
          IN d[(v \div 16) + 1] \o d[(v % 16) + 1]
Groups6 == {TLCEval([i \in 1..16 |-> Pick(0..255)]), Zeros(16), Zeros(15) \o <<1>>, Fill(16, 255),
            [i \in 1..16 |-> IF i \in {1, 16} THEN 254 ELSE 0], TLCEval([i \in 1..16 |-> IF i \in 5..12 THEN 0 ELSE Pick(0..255)]),
            Zeros(10) \o <<255, 255, 1, 2, 3, 4>>}
Colon(o) == FoldSeq(LAMBDA i, acc : acc \o (IF i > 1 THEN ":" ELSE "") \o Hex(o[2*i-1]) \o Hex(o[2*i]), "", <<1,2,3,4,5,6,7,8>>)
BadText6 == {"1.2.3.4", "::g", "1:2:3:4:5:6:7", "1::2::3", "::1%lo", "12345::", "::1 ", "[::1]"}
N6 == kind = "ep6"
AnyAddr == Zeros(IF N6 THEN 16 ELSE 4)
Ports == {0, 1, 80, 255, 256, 1024, 32767, 32768, 65535, Pick(0..65535)}
EpRec(o, t, p, thr) == Rec([o |-> o, text |-> t, port |-> p, throws |-> thr, addr |-> ep'[1], eport |-> ep'[2]])
Text(good, g) == IF good THEN <<g, IF N6 THEN Colon(g) ELSE Dot(g)>> ELSE <<<<>>, Pick(IF N6 THEN BadText6 ELSE BadText)>>
EpNext ==
  \E k \in {Pick(1..7)} : \E g \in {TLCEval(IF N6 THEN Pick(Groups6) ELSE Pick(Octets))} : \E t \in {TLCEval(Text(Pick(1..3) > 1, g))} : \E p \in {Pick(Ports)} :
    CASE k = 1 -> ep' = <<AnyAddr, 0>> /\ EpRec("default", "", 0, FALSE)
      [] k = 2 -> ep' = <<AnyAddr, p>> /\ EpRec("port_ctor", "", p, FALSE)
      \* a text that is no address is refused; the object that was there is kept
      [] k = 3 -> ep' = (IF t[1] = <<>> THEN ep ELSE <<t[1], p>>) /\ EpRec("ctor", t[2], p, t[1] = <<>>)
      [] k = 4 -> ep' = <<AnyAddr, p>> /\ EpRec("ctor", "", p, FALSE)
      [] k = 5 -> ep' = <<IF t[1] = <<>> THEN AnyAddr ELSE t[1], ep[2]>> /\ EpRec("address", t[2], 0, FALSE)
      [] k = 6 -> ep' = <<ep[1], p>> /\ EpRec("port", "", p, FALSE)
      [] OTHER -> ep' = <<AnyAddr, ep[2]>> /\ EpRec("address", "", 0, FALSE)

\* ------------------------------------------------------------------ datagrams
\* a socket: [life, g (incarnation), at (0: unbound; 1..3: a named place; 100+g: a place the
\* system chose), src (the place src() tells), q (arrived, unread), ms (receive timeout), last
\* (the place last reported as a sender)]
US == 1..3
Nobody == [life |-> "none", g |-> 0, at |-> 0, src |-> 0, q |-> <<>>, ms |-> 0, last |-> 0, dst |-> 0]
LenS(x) == {0, 1, 3, 4, 100, 1472, 1473, 9000, 65507, Pick(0..65507), Pick(0..2000)}
BufS(x) == {0, 1, 4, 100, 1500, 65507, 65536, Pick(1..3000)}
MaxDatagram == 65507
TotalQ(q) == FoldSeq(LAMBDA m, a : a + m.len, 0, q)
Holder(p) == {j \in US : u[j].life = "open" /\ u[j].at = p}
Auto(i) == IF u[i].at = 0 THEN 100 + u[i].g ELSE u[i].at
\* sockets left to time out wait this long (0: what the library chose)
UOpen(i) == u[i].life = "none" /\ \E ms \in {IF Pick(1..25) = 1 THEN 0 ELSE 60} :
    /\ u' = [u EXCEPT ![i] = [Nobody EXCEPT !.life = "open", !.g = gen + 1, !.ms = ms]]
    /\ gen' = gen + 1 /\ sent' = Append(sent, <<>>) /\ got' = Append(got, <<>>)
    /\ Rec([o |-> "uopen", s |-> i, g |-> gen + 1, ms |-> ms, open |-> TRUE])
UClose(i) == u[i].life = "open" /\ u' = [u EXCEPT ![i].life = "closed"]
    /\ UNCHANGED <<gen, sent, got>> /\ Rec([o |-> "uclose", s |-> i, open |-> FALSE])
UDel(i) == u[i].life # "none" /\ u' = [u EXCEPT ![i] = Nobody]
    /\ UNCHANGED <<gen, sent, got>> /\ Rec([o |-> "udel", s |-> i])
UBind(i) == u[i].life # "none" /\ \E p \in {Pick(1..3)} :
    LET ok == u[i].life = "open" /\ u[i].at = 0 /\ Holder(p) = {}
    IN /\ u' = IF ok THEN [u EXCEPT ![i].at = p, ![i].src = p] ELSE u
       /\ UNCHANGED <<gen, sent, got>>
       /\ Rec([o |-> "ubind", s |-> i, place |-> p, ok |-> ok, src |-> u'[i].src])
\* where to: a named place, or the sender of what i received last
USend(i) == u[i].life # "none" /\
    \E p \in {Pick(1..3 \cup (IF u[i].last # 0 THEN {u[i].last} ELSE {}) \cup {k \in {u[j].at : j \in US} : k # 0})} :
    \E len \in {Pick(LenS(n) \cup {65508})} : \E viadst \in {Pick({TRUE, FALSE})} :
    LET ok == u[i].life = "open" /\ len <= MaxDatagram
        R == Holder(p) \cup (IF u[i].life = "open" /\ p = Auto(i) THEN {i} ELSE {})
        m == [from |-> Auto(i), len |-> len, tag |-> n]
        fits == \A j \in R : Len(u[j].q) < 3 /\ TotalQ(u[j].q) + len < 70000
    IN /\ fits
       /\ LET a == [u EXCEPT ![i].at = IF u[i].life = "open" THEN Auto(i) ELSE @, ![i].dst = IF viadst THEN p ELSE @]
          IN u' = [j \in US |-> IF ok /\ j \in R THEN [a[j] EXCEPT !.q = Append(@, m)] ELSE a[j]]
       /\ sent' = [g \in DOMAIN sent |-> IF ok /\ \E j \in R : u[j].g = g THEN Append(sent[g], m) ELSE sent[g]]
       /\ UNCHANGED <<gen, got>>
       /\ Rec([o |-> "usend", s |-> i, to |-> p, len |-> len, tag |-> n, viadst |-> viadst, ret |-> IF ok THEN len ELSE -1, dst |-> u'[i].dst])
URecv(i) == u[i].life # "none" /\ \E b \in {Pick(BufS(n))} :
    IF u[i].life = "open" /\ u[i].q # <<>>
    THEN LET m == Head(u[i].q) k == IF m.len < b THEN m.len ELSE b
         IN /\ u' = [u EXCEPT ![i].q = Tail(@), ![i].last = m.from]
            /\ got' = [got EXCEPT ![u[i].g] = Append(@, m)]
            /\ UNCHANGED <<gen, sent>>
            /\ Rec([o |-> "urecv", s |-> i, buf |-> b, ret |-> k, tag |-> m.tag, from |-> m.from, wait |-> FALSE, ms |-> u[i].ms])
    ELSE /\ UNCHANGED <<u, gen, sent, got>>
         /\ Rec([o |-> "urecv", s |-> i, buf |-> b, ret |-> -1, tag |-> 0, from |-> 0, wait |-> u[i].life = "open", ms |-> u[i].ms])
UTimeout(i) == u[i].life = "open" /\ u[i].q = <<>> /\ u' = [u EXCEPT ![i].ms = 1000]
    /\ UNCHANGED <<gen, sent, got>> /\ Rec([o |-> "utimeout", s |-> i, sec |-> 1])
UdpNext == \E i \in {Pick(US)} : \E k \in {Pick(1..22)} :
    CASE k <= 3 \/ u[i].life = "none" -> IF u[i].life = "none" THEN UOpen(i) ELSE USend(i)
      [] k = 4 -> IF u[i].life = "open" THEN UClose(i) ELSE UDel(i)
      [] k = 5 -> UDel(i)
      [] k \in 6..8 -> UBind(i)
      [] k \in 9..15 -> USend(i)
      [] k = 16 -> IF u[i].life = "open" /\ u[i].q = <<>> /\ Pick(1..4) = 1 THEN UTimeout(i) ELSE USend(i)
      [] OTHER -> IF u[i].q = <<>> /\ Pick(1..4) > 1 THEN USend(i) ELSE URecv(i)

\* -------------------------------------------------------------------- streams
\* the listener: [life, at, listening, pend (connections waiting), cur, ms]
\* a client: [life, c (its connection, 0: none), ms]
\* dst: the place (for the listener: the connection) its destination endpoint tells
\* wr, rd: the client has not given up writing, reading
\* a connection: what each side has written and how much of it the other has read; each side
\* open or not; broken once one side has thrown data away or written to a closed one
CS == 1..2
NoL == [life |-> "none", at |-> 0, listening |-> FALSE, pend |-> <<>>, cur |-> 0, ms |-> 0, dst |-> 0]
NoC == [life |-> "none", c |-> 0, ms |-> 0, dst |-> 0]
Tot(w) == FoldSeq(LAMBDA s, a : a + s.len, 0, w)
Avail(k, side) == Tot(conn[k].w[3 - side]) - conn[k].r[side]       \* side 1: client, 2: listener
NewConn == [w |-> <<<<>>, <<>>>>, r |-> <<0, 0>>, up |-> <<TRUE, TRUE>>, wr |-> TRUE, rd |-> TRUE, broken |-> FALSE]
Shut(cn, side) == [cn EXCEPT !.up[side] = FALSE, !.broken = @ \/ (Tot(cn.w[3 - side]) > cn.r[side])]
ShutAll(cs, ks, side) == [k \in DOMAIN cs |-> IF k \in ks THEN Shut(cs[k], side) ELSE cs[k]]
\* connections that wait in vain are reset
Reset(cs, ks) == [k \in DOMAIN cs |-> IF k \in ks THEN [cs[k] EXCEPT !.up[2] = FALSE, !.broken = TRUE] ELSE cs[k]]
LOpen == L.life = "none" /\ \E ms \in {IF Pick(1..3) = 1 THEN 0 ELSE 60} :
    /\ L' = [NoL EXCEPT !.life = "open", !.ms = ms] /\ UNCHANGED <<C, conn>>
    /\ Rec([o |-> "lopen", ms |-> ms, open |-> TRUE])
LEnd(del) == (IF del THEN L.life # "none" ELSE L.life = "open")
    /\ conn' = ShutAll(Reset(conn, ToSet(L.pend)), {L.cur} \ {0}, 2)
    /\ L' = (IF del THEN NoL ELSE [NoL EXCEPT !.life = "closed", !.at = L.at, !.dst = L.dst])
    /\ UNCHANGED C /\ Rec([o |-> IF del THEN "ldel" ELSE "lclose", open |-> FALSE])
\* each place is bound once in a history: the system keeps used ones back for a while
LBind == L.life # "none" /\
    LET ok == L.life = "open" /\ L.at = 0
        p == 4 + gen
    IN /\ gen < 12 /\ gen' = gen + 1
       /\ L' = IF ok THEN [L EXCEPT !.at = p] ELSE L
       /\ UNCHANGED <<C, conn>> /\ Rec([o |-> "lbind", place |-> p, ok |-> ok, src |-> L'.at])
LListen == L.life # "none" /\ (L.life = "open" => L.at # 0) /\
    LET ok == L.life = "open" IN
       /\ L' = [L EXCEPT !.listening = ok] /\ UNCHANGED <<C, conn, gen>> /\ Rec([o |-> "llisten", ok |-> ok])
\* waiting in vain for as long as the library chose happens seldom
Patient(ms, waits) == waits /\ ms = 0 => Pick(1..12) = 1
LAccept == L.life # "none" /\
    IF L.pend # <<>>
    THEN LET k == Head(L.pend) IN
         /\ conn' = ShutAll(conn, {L.cur} \ {0}, 2)
         /\ L' = [L EXCEPT !.cur = k, !.dst = k, !.pend = Tail(@)] /\ UNCHANGED <<C, gen>>
         /\ Rec([o |-> "laccept", ok |-> TRUE, conn |-> k, dst |-> k, wait |-> FALSE, ms |-> L.ms])
    ELSE Patient(L.ms, L.listening) /\ UNCHANGED <<L, C, conn, gen>> /\ Rec([o |-> "laccept", ok |-> FALSE, conn |-> 0, dst |-> L.dst, wait |-> L.listening, ms |-> L.ms])
COpen(i) == C[i].life = "none" /\ \E ms \in {IF Pick(1..3) = 1 THEN 0 ELSE 60} :
    /\ C' = [C EXCEPT ![i] = [NoC EXCEPT !.life = "open", !.ms = ms]]
    /\ UNCHANGED <<L, conn, gen>> /\ Rec([o |-> "copen", s |-> i, ms |-> ms, open |-> TRUE])
CEnd(i, del) == (IF del THEN C[i].life # "none" ELSE C[i].life = "open")
    /\ conn' = ShutAll(conn, {C[i].c} \ {0}, 1)
    /\ C' = [C EXCEPT ![i] = IF del THEN NoC ELSE [NoC EXCEPT !.life = "closed", !.dst = C[i].dst]]
    /\ UNCHANGED <<L, gen>> /\ Rec([o |-> IF del THEN "cdel" ELSE "cclose", s |-> i, open |-> FALSE])
CConnect(i) == C[i].life # "none" /\ L.at # 0 /\
    LET ok == C[i].life = "open" /\ C[i].c = 0 /\ L.listening
        k == Len(conn) + 1
    IN /\ (C[i].life = "open" /\ C[i].c = 0) => (L.listening /\ Len(L.pend) < 3)
       /\ conn' = IF ok THEN Append(conn, NewConn) ELSE conn
       /\ C' = IF ok THEN [C EXCEPT ![i].c = k, ![i].dst = L.at] ELSE C
       /\ L' = IF ok THEN [L EXCEPT !.pend = Append(@, k)] ELSE L
       /\ UNCHANGED gen
       /\ Rec([o |-> "cconnect", s |-> i, place |-> L.at, ok |-> ok, conn |-> IF ok THEN k ELSE 0, dst |-> C'[i].dst])
\* refused where nobody listens
CRefused(i) == C[i].life = "open" /\ C[i].c = 0 /\ gen < 12 /\ gen' = gen + 1
    /\ UNCHANGED <<L, C, conn>> /\ Rec([o |-> "cconnect", s |-> i, place |-> 4 + gen, ok |-> FALSE, conn |-> 0, dst |-> C[i].dst])
\* half of a connection given up: what has been written still arrives, then the other side is told
CShutdown(i) == C[i].life = "open" /\ C[i].c # 0 /\ ~conn[C[i].c].broken /\ conn[C[i].c].wr /\ conn[C[i].c].rd /\ \E w \in {IF Avail(C[i].c, 1) = 0 /\ conn[C[i].c].up[2] THEN Pick({0, 1}) ELSE 1} :
    /\ conn' = (IF w = 1 THEN [conn EXCEPT ![C[i].c].wr = FALSE] ELSE [conn EXCEPT ![C[i].c].rd = FALSE])
    /\ UNCHANGED <<L, C, gen>> /\ Rec([o |-> "cshutdown", s |-> i, what |-> w])
TLenS(x) == {0, 1, 4, 100, 5000, 60000, Pick(1..3000)}
Where(side, i) == IF side = 1 THEN C[i].c ELSE L.cur
Life(side, i) == IF side = 1 THEN C[i].life ELSE L.life
TWrite(side, i) == Life(side, i) # "none" /\ \E len \in {Pick(TLenS(n))} :
    LET k == Where(side, i)
        sz == IF k = 0 THEN 0 ELSE Tot(conn[k].w[side]) - conn[k].r[3 - side]
    IN /\ k # 0 => sz + len < 120000
       /\ conn' = IF k = 0 \/ conn[k].broken \/ (side = 1 /\ ~conn[k].wr) THEN conn
                  \* (what becomes of data for one who no longer reads is the system's affair)
                  ELSE IF side = 2 /\ ~conn[k].rd THEN [conn EXCEPT ![k].broken = @ \/ len > 0]
                  ELSE IF conn[k].up[3 - side] THEN [conn EXCEPT ![k].w[side] = Append(@, [len |-> len, tag |-> n])]
                  ELSE [conn EXCEPT ![k].broken = @ \/ len > 0]
       /\ UNCHANGED <<L, C, gen>>
       /\ Rec([o |-> "twrite", side |-> side, s |-> i, len |-> len, tag |-> n, conn |-> k,
               ret |-> IF k = 0 \/ (side = 1 /\ ~conn[k].wr) THEN -1 ELSE len,
               any |-> IF k = 0 THEN len = 0 ELSE (conn[k].broken \/ ~conn[k].up[3 - side] \/ (side = 1 /\ ~conn[k].wr /\ len = 0))])
Ended(k, side) == k # 0 /\ (~conn[k].up[3 - side] \/ (IF side = 2 THEN ~conn[k].wr ELSE ~conn[k].rd))
TRead(side, i) == Life(side, i) # "none" /\
    LET k == Where(side, i)
        av == IF k = 0 THEN 0 ELSE Avail(k, side)
        ms == IF side = 1 THEN C[i].ms ELSE L.ms
    IN Patient(ms, av = 0 /\ k # 0 /\ ~Ended(k, side)) /\ \E over \in {Pick({0, 0, 1, 500})} : \E want \in {IF av = 0 THEN 0 ELSE IF over > 0 THEN av ELSE Pick(1..av)} :
       /\ conn' = IF k = 0 THEN conn ELSE [conn EXCEPT ![k].r[side] = @ + want]
       /\ UNCHANGED <<L, C, gen>>
       /\ LET base == [o |-> "tread", side |-> side, s |-> i, conn |-> k, want |-> want, over |-> over, from |-> IF k = 0 THEN 0 ELSE conn[k].r[side],
                       any |-> k # 0 /\ conn[k].broken, ms |-> ms]
          IN IF av > 0 THEN Rec(base @@ [ret |-> want, wait |-> FALSE])
             ELSE IF Ended(k, side) THEN Rec(base @@ [ret |-> 0, wait |-> FALSE])
             ELSE Rec(base @@ [ret |-> -1, wait |-> k # 0])
\* (a connection waiting to be accepted has the timeout the listener had when it was made)
LTimeout == L.life = "open" /\ L.pend = <<>> /\ L' = [L EXCEPT !.ms = 1000] /\ UNCHANGED <<C, conn, gen>> /\ Rec([o |-> "ltimeout", sec |-> 1])
TcpNext == \E i \in {Pick(CS)} : \E side \in {Pick(1..2)} : \E k \in {Pick(1..40)} :
    CASE L.life = "none" -> LOpen /\ UNCHANGED gen
      [] L.life = "closed" /\ k > 10 -> LEnd(TRUE) /\ UNCHANGED gen
      [] L.life = "open" /\ L.at = 0 /\ k > 4 -> LBind
      [] L.life = "open" /\ L.at # 0 /\ ~L.listening /\ k > 3 -> LListen
      [] C[i].life = "none" -> COpen(i)
      [] C[i].life = "open" /\ C[i].c = 0 /\ L.listening /\ Len(L.pend) < 3 /\ k > 6 -> CConnect(i)
      [] L.pend # <<>> /\ k > 25 -> LAccept
      [] k = 1 -> IF L.life = "open" THEN LEnd(FALSE) /\ UNCHANGED gen ELSE LEnd(TRUE) /\ UNCHANGED gen
      [] k = 2 -> CEnd(i, FALSE)
      [] k \in 3..4 -> CEnd(i, TRUE)
      [] k = 5 -> IF L.life = "open" /\ L.at # 0 THEN LListen ELSE TWrite(side, i)
      [] k = 6 -> IF C[i].life = "open" /\ C[i].c = 0 THEN CRefused(i) ELSE TWrite(side, i)
      [] k = 7 -> LAccept
      [] k = 8 -> IF L.life = "open" /\ Pick(1..4) = 1 THEN LTimeout ELSE TWrite(side, i)
      [] k = 9 -> IF L.at # 0 /\ C[i].c # 0 THEN CConnect(i) ELSE TWrite(side, i)
      [] k = 10 -> IF L.life = "open" THEN LBind ELSE LEnd(TRUE) /\ UNCHANGED gen
      [] k = 11 -> IF C[i].c # 0 /\ C[i].life = "open" THEN (IF conn[C[i].c].broken \/ ~conn[C[i].c].wr \/ ~conn[C[i].c].rd THEN TWrite(side, i) ELSE CShutdown(i)) ELSE TWrite(side, i)
      [] k \in 12..24 -> TWrite(side, i)
      [] OTHER -> IF Where(side, i) # 0 /\ Avail(Where(side, i), side) = 0 /\ ~Ended(Where(side, i), side) /\ Pick(1..5) > 1 THEN TWrite(3 - side, i) ELSE TRead(side, i)

Init == kind = "?" /\ n = 0 /\ ep = <<Zeros(4), 0>> /\ u = [i \in US |-> Nobody] /\ gen = 0 /\ sent = <<>> /\ got = <<>>
        /\ L = NoL /\ C = [i \in CS |-> NoC] /\ conn = <<>>
Kinds == IF IOEnv.KIND = "all" THEN {"ep", "ep6", "udp", "tcp"} ELSE {IOEnv.KIND}
Next == IF kind = "?"
        THEN /\ kind' = Pick(Kinds) /\ n' = 0 /\ ep' = <<Zeros(IF kind' = "ep6" THEN 16 ELSE 4), 0>>
             /\ UNCHANGED <<u, gen, sent, got, L, C, conn>> /\ Rec([o |-> "start", kind |-> kind'])
        ELSE /\ n' = n + 1 /\ UNCHANGED kind
             /\ CASE kind \in {"ep", "ep6"} -> EpNext /\ UNCHANGED <<u, gen, sent, got, L, C, conn>>
                  [] kind = "udp" -> UdpNext /\ UNCHANGED <<ep, L, C, conn>>
                  [] OTHER -> TcpNext /\ UNCHANGED <<ep, u, sent, got>>
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* what a socket has received and still holds is what was sent to it, in order, once
Faithful == \A i \in US : u[i].life = "open" => got[u[i].g] \o u[i].q = sent[u[i].g]
\* nothing is read that was not written
NoInvention == \A k \in DOMAIN conn : conn[k].r[1] <= Tot(conn[k].w[2]) /\ conn[k].r[2] <= Tot(conn[k].w[1])
\* no two open sockets hold the same place
Exclusive == \A i, j \in US : (i # j /\ u[i].life = "open" /\ u[j].life = "open" /\ u[i].at # 0) => u[i].at # u[j].at
EndpointSane == Len(ep[1]) \in {4, 16} /\ ep[2] \in 0..65535
=============================================================================
