----------------------------- MODULE DepackGen -------------------------------
(* Random senders: tracks, units and their packets, with the units each      *)
(* packet completes.  Printed as vectors for the harness.                    *)
EXTENDS Depack, Json
CONSTANTS Profile,   \* "264" | "265" | "mix": which codecs
          Sizes,     \* "small" | "mid" | "big": of units
          Noise      \* percentage of packets that belong to no unit
VARIABLES tr, open, ids, units, hist, k, fin
vars == <<tr, open, ids, units, hist, k, fin>>

R(S) == RandomElement(S)
Min2(a, b) == IF a < b THEN a ELSE b
Pick(q) == q[R(1..Len(q))]
P(n) == R(1..100) <= n /\ ids >= 0

MaxPayload == 65523    \* in an interleaved frame, after the RTP header
MaxUnit == 8388608
C264(i) == [c |-> Pick(<<"H264", "H264", "H264", "h264">>), k |-> "264", pt |-> R(96..127)]
C265(i) == [c |-> Pick(<<"H265", "H265", "HEVC", "h265">>), k |-> "265", pt |-> R(96..127)]
CMark(i) == [c |-> "bbw", k |-> "mark", pt |-> R(96..127)]
CAny(i) == Pick(<<[c |-> "PCMU", k |-> "any", pt |-> 0], [c |-> "PCMA", k |-> "any", pt |-> 8], [c |-> "JPEG", k |-> "any", pt |-> 26],
               [c |-> "MPEG4-GENERIC", k |-> "any", pt |-> 97], [c |-> "vnd.onvif.metadata", k |-> "any", pt |-> 107],
               [c |-> "L16", k |-> "any", pt |-> 10], [c |-> "H263-1998", k |-> "any", pt |-> 96], [c |-> "MP4V-ES", k |-> "any", pt |-> 99],
               [c |-> "opus", k |-> "any", pt |-> 111], [c |-> "G726-32", k |-> "any", pt |-> 112], [c |-> "VP8", k |-> "any", pt |-> 100],
               [c |-> "MP2T", k |-> "any", pt |-> 33], [c |-> "H264-SVC", k |-> "any", pt |-> 101], [c |-> "bbw2", k |-> "any", pt |-> 102]>>)
RECURSIVE Mk(_)
Mk(n) == IF n = 0 THEN <<>> ELSE
  <<LET x == IF Profile = "mix" THEN R(1..6) ELSE 0 IN
    CASE Profile = "264" \/ x = 1 -> C264(n) [] Profile = "265" \/ x = 2 -> C265(n) [] x = 3 -> CMark(n) [] OTHER -> CAny(n)>> \o Mk(n - 1)

Init == /\ tr = <<>> /\ open = <<>> /\ ids = 0 /\ units = <<>> /\ hist = <<>> /\ fin = FALSE
        /\ k \in (IF Sizes = "big" THEN {1, 3} ELSE {5, 12, 30})

\* length of a body
BodyLen(lo) ==
  CASE Sizes = "small" -> R(lo..(lo + Pick(<<2, 6, 20>>)))
    [] Sizes = "mid"   -> Pick(<<R(lo..10), R(lo..10), R(100..300), 253, 254, 255, 256, 257, R(1000..1500), 4094, 4096, R(10000..60000),
                                 32765, 32766, 32767, 32768, 65400, R(65400..65515)>>)
    [] OTHER           -> Pick(<<R(2..2000), R(65000..70000), 65534, 65535, 65536, 131071, R(70000..400000), 1048576, 4194304 + R(0..9), 8388608, 8388608, 8388606, 8388605, R(1000000..8388605)>>)
NalHead(kind) == CASE kind = "264" -> <<R(0..3) * 32 + R(1..23)>>
                [] kind = "265" -> Hdr5(Pick(<<R(0..47), R(0..47), 0, 1, 19, 32, 33, 34, 39, 47>>), Pick(<<0, 0, R(0..63)>>), R(1..7))
                [] OTHER -> <<>>
HeadLen(kind) == CASE kind = "264" -> 1 [] kind = "265" -> 2 [] OTHER -> 0
NewUnit(kind, n, j) == [id |-> ids + j, h |-> NalHead(kind), n |-> IF n + HeadLen(kind) > MaxUnit THEN MaxUnit - HeadLen(kind) ELSE n, b |-> <<>>]
\* optional parts that fit into an interleaved frame with n bytes of payload
OptOf(n) == LET room == Min2(MaxPayload - n, 4000) IN
  IF P(75) \/ room < 4 THEN NoOpt ELSE
  LET cc == IF P(50) THEN 0 ELSE Min2(R(0..15), room \div 4)
      r2 == room - 4 * cc
      ext == IF P(50) \/ r2 < 4 THEN -1 ELSE Min2(Pick(<<0, 0, 1, 2, R(0..20), 255, 256, 300, 999>>), (r2 - 4) \div 4)
      r3 == IF ext < 0 THEN r2 ELSE r2 - 4 - 4 * ext
  IN [cc |-> cc, ext |-> ext, pad |-> IF P(50) THEN 0 ELSE Min2(Pick(<<1, 2, 3, 4, R(1..255), 255>>), r3)]
\* n: length of the payload
Pkt(t, p, n, mark, us) == LET o == OptOf(n) IN
                       [ch |-> 2 * (t - 1), pt |-> tr[t].pt, m |-> mark, p |-> Pre(o, R(0..255)) \o p \o Post(o, R(0..255)), cut |-> 12, b0 |-> First(o),
                        out |-> [i \in 1..Len(us) |-> Whole(us[i])]]
AnyMark(t) == Pick(<<0, 1>>)
Emit(pkt, us) ==
  /\ hist' = Append(hist, pkt)
  /\ ids' = ids + Len(us)
  /\ units' = units \o [i \in 1..Len(us) |-> us[i].n]

One(t) == \E u \in {NewUnit(tr[t].k, Min2(BodyLen(IF tr[t].k \in {"264", "265"} THEN 0 ELSE 1), 65515), 1)} :
  Emit(Pkt(t, Whole(u), Size(u), AnyMark(t), <<u>>), <<u>>) /\ UNCHANGED open
RECURSIVE Some(_, _, _, _)
\* up to n units with at most `room' bytes together (12 bytes of overhead each)
Some(kind, n, room, j) ==
  IF n = 0 \/ room < 30 THEN <<>> ELSE
  LET u == NewUnit(kind, Min2(IF P(80) THEN R(0..Pick(<<3, 40, 300>>)) ELSE BodyLen(0), room - 20), j)
  IN <<u>> \o Some(kind, n - 1, room - Size(u) - 12, j + 1)
Agg(t) == \E us \in {Some(tr[t].k, Pick(<<1, 2, 2, 3, 4, 8, 30>>), 65500, 1)} :
  /\ UNCHANGED open
  /\ Emit(Pkt(t, IF tr[t].k = "265" THEN Ap(us) ELSE Agg264(Pick(<<"stapa", "stapa", "stapb", "mtap16", "mtap24">>), us, R(0..65535), R(0..65535)),
              SumSizes(us) + 12 * Len(us) + 3, AnyMark(t), us), us)
\* fs: how the sender cuts this unit
FragSize(n) == IF n < 60 THEN Pick(<<1, 2, 3, 0>>) ELSE IF n < 70000 THEN Pick(<<1000, 1400, 16000, 65519, 0>>) ELSE Pick(<<40000, 60000, 65519, 65519, 0>>)
Start(t) == \E u \in {NewUnit(tr[t].k, BodyLen(2), 1)} : \E fs \in {FragSize(u.n)} :
  /\ open' = [open EXCEPT ![t] = [on |-> TRUE, u |-> u, f |-> 0, fs |-> fs]]
  /\ ids' = ids + 1 /\ units' = Append(units, u.n) /\ UNCHANGED hist
More(t) == LET o == open[t]
               u == o.u
               rest == u.n - o.f
               most == IF tr[t].k = "mark" \/ o.f > 0 THEN rest ELSE rest - 1
  IN \E n \in {Min2(most, IF o.fs # 0 THEN o.fs ELSE Min2(65519, R(1..Min2(most, 65519))))} :
     LET last == o.f + n = u.n
         p == CASE tr[t].k = "264" -> IF o.f = 0 /\ P(15) THEN FuB(u, n, R(0..65535)) ELSE FuA(u, o.f, n) [] tr[t].k = "265" -> Fu5(u, o.f, n) [] OTHER -> Piece(u, o.f, n)
     IN /\ open' = [open EXCEPT ![t] = IF last THEN [on |-> FALSE] ELSE [o EXCEPT !.f = @ + n]]
        /\ hist' = Append(hist, Pkt(t, p, n + 4, IF tr[t].k = "mark" THEN (IF last THEN 1 ELSE 0) ELSE IF last THEN AnyMark(t) ELSE 0,
                                    IF last THEN <<u>> ELSE <<>>))
        /\ UNCHANGED <<ids, units>>
Lits(n) == [i \in 1..n |-> R(0..255)]
\* frames that belong to no unit: RTCP, channels never set up, no payload, less than an RTP header,
\* less than the payload header
Quiet(p) == [ch |-> 0, pt |-> 96, m |-> 0, p |-> p, cut |-> 12, b0 |-> 128, out |-> <<>>]
NoiseOf(t) == CASE tr[t].k = "264" -> Pick(<<<<28>>, <<124>>, <<29>>, <<24>>, <<24, 0>>, <<25, 0, 0>>, <<26, 1>>, <<27, 0, 0, 0>>, <<29, 129>>, <<125, 133, 0>>, <<>>>>)
                [] tr[t].k = "265" -> Pick(<<<<98>>, <<98, 1>>, <<96>>, <<96, 1>>, <<96, 1, 0>>, <<2>>, <<>>>>)
                [] OTHER -> <<>>
Quiet3 == [Quiet(Lits(4)) EXCEPT !.ch = 1]
NoisePkt ==
  Pick(<<[Quiet(Lits(R(0..30))) EXCEPT !.ch = 2 * R(0..(Len(tr) + 1)) + 1],
         [Quiet(Lits(R(0..30))) EXCEPT !.ch = 2 * R(Len(tr)..127)],
         [Quiet(<<>>) EXCEPT !.ch = R(0..255), !.cut = R(0..11)],
         [Quiet(<<>>) EXCEPT !.ch = 2 * (R(1..Len(tr)) - 1)],
         \* nothing but optional parts, or optional parts that do not fit
         LET x == Pick(<<[b |-> 129, p |-> Lits(4)], [b |-> 160, p |-> <<0, 0, 3>>], [b |-> 144, p |-> <<190, 222, 0, 1>> \o Lits(4)],
                         [b |-> 143, p |-> Lits(59)], [b |-> 144, p |-> Lits(3)], [b |-> 144, p |-> <<190, 222, 255, 255>> \o Lits(40)],
                         [b |-> 160, p |-> Lits(20) \o <<255>>], [b |-> 176, p |-> <<190, 222, 0, 1>> \o Lits(3) \o <<5>>]>>)
         IN [Quiet(x.p) EXCEPT !.ch = 2 * (R(1..Len(tr)) - 1), !.b0 = x.b],
         LET t == R(1..Len(tr)) IN IF open[t].on THEN Quiet3 ELSE [Quiet(NoiseOf(t)) EXCEPT !.ch = 2 * (t - 1)]>>)

Opens == {t \in 1..Len(tr) : open[t].on}
Next ==
  /\ ~fin
  /\ IF tr = <<>> THEN /\ \E q \in {Mk(IF Profile = "mix" THEN R(2..(7 + ids)) ELSE Pick(<<1, 1, 2 + ids>>))} :
                             tr' = q /\ open' = [t \in 1..Len(q) |-> [on |-> FALSE]]
                       /\ UNCHANGED <<ids, units, hist, k, fin>>
     ELSE IF Len(hist) >= k /\ Opens = {}
     THEN /\ PrintT("SCRIPT " \o ToJson([tracks |-> [t \in 1..Len(tr) |-> [c |-> tr[t].c, pt |-> tr[t].pt]], units |-> units, pkts |-> hist]))
          /\ fin' = TRUE /\ UNCHANGED <<tr, open, ids, units, hist, k>>
     ELSE /\ UNCHANGED <<tr, k, fin>>
          /\ IF P(Noise) THEN \E q \in {NoisePkt} : hist' = Append(hist, q) /\ UNCHANGED <<open, ids, units>>
             ELSE \E t \in {R(IF Len(hist) >= k THEN Opens ELSE 1..Len(tr))} :
                  IF open[t].on THEN More(t)
                  ELSE CASE tr[t].k \in {"264", "265"} -> \E x \in {R(1..3)} : (x = 1 /\ One(t)) \/ (x = 2 /\ Agg(t)) \/ (x = 3 /\ Start(t))
                         [] tr[t].k = "mark" -> Start(t)
                         [] OTHER -> One(t)
Spec == Init /\ [][Next]_vars
=============================================================================
