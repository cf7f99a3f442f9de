------------------------------ MODULE DepackMC -------------------------------
(* Every packetization of every short sequence of small units, on several    *)
(* tracks, through the receiver: exactly the units, each when complete.      *)
EXTENDS Depack
CONSTANTS Codecs,    \* of the tracks, e.g. <<"H264", "H265">>
          MaxUnits,  \* per behaviour
          MaxBody    \* bytes
Codecs264 == <<"H264">>
Codecs265 == <<"H265">>
CodecsMix == <<"H264", "bbw", "PCMU">>
VARIABLES open, buf, sent, got, left
vars == <<open, buf, sent, got, left>>

Tracks == 1..Len(Codecs)
Bytes == {0, 24, 98, 255}
Bodies == UNION {[1..n -> Bytes] : n \in 0..MaxBody}
H264 == {<<nri * 32 + t>> : nri \in {0, 3}, t \in {1, 23}}
H265 == {Hdr5(t, l, d) : t \in {0, 47}, l \in {0, 33}, d \in {1, 7}}
Heads(c) == IF c = "H264" THEN H264 ELSE IF c = "H265" THEN H265 ELSE {<<>>}
Units(c) == {[id |-> 0, h |-> h, n |-> Len(b), b |-> b] : h \in Heads(c), b \in Bodies}
None == [id |-> -1, h |-> <<>>, n |-> 0, b |-> <<>>]

Init == open = [t \in Tracks |-> [u |-> None, f |-> 0]] /\ buf = [t \in Tracks |-> <<>>] /\ sent = [t \in Tracks |-> <<>>]
        /\ got = [t \in Tracks |-> <<>>] /\ left = MaxUnits

\* the optional parts of a packet: whatever they are, they are taken off again
ASSUME \A cc \in 0..15 : \A ext \in -1..3 : \A pad \in 0..4 : \A p \in {<<>>, <<0>>, <<255, 3>>} : \A x \in {0, 5} :
  LET o == [cc |-> cc, ext |-> ext, pad |-> pad] IN
  Body(Rtp(o, 1, 96, x, p)) = p /\ Len(Rtp(o, 1, 96, x, p)) = 12 + OptSize(o) + Len(p)
Opt == IF left % 2 = 0 THEN NoOpt ELSE [cc |-> 1, ext |-> 1, pad |-> 2]
Recv(t, q, mark) == LET p == Body(Rtp(Opt, 0, 96, 3, q)) IN CASE Codecs[t] = "H264" -> Recv264(buf[t], p) [] Codecs[t] = "H265" -> Recv265(buf[t], p)
                      [] Codecs[t] = "bbw" -> RecvMark(buf[t], p, mark) [] OTHER -> RecvSimple(buf[t], p)
Deliver(t, p, mark, us) ==
  LET r == Recv(t, p, mark) IN
  /\ buf' = [buf EXCEPT ![t] = r.buf]
  /\ got' = [got EXCEPT ![t] = @ \o r.out]
  /\ sent' = [sent EXCEPT ![t] = @ \o [i \in 1..Len(us) |-> Whole(us[i])]]
  /\ left' = left - Len(us)
Idle(t) == open[t].u = None
Nal(t) == Codecs[t] \in {"H264", "H265"}
One(t) == Idle(t) /\ left > 0 /\ \E u \in Units(Codecs[t]) : (u.n > 0 \/ Nal(t)) /\ Codecs[t] # "bbw" /\
  Deliver(t, Whole(u), FALSE, <<u>>) /\ UNCHANGED open
Agg(t) == Idle(t) /\ Nal(t) /\ \E k \in 1..left : \E us \in [1..k -> Units(Codecs[t])] :
  /\ UNCHANGED open
  /\ IF Codecs[t] = "H265" THEN Deliver(t, Ap(us), FALSE, us)
     ELSE \E kind \in {"stapa", "stapb", "mtap16", "mtap24"} : Deliver(t, Agg264(kind, us, 6168, 6168), FALSE, us)
\* fragments; the unit counts as sent with its last one
Frag(t) == Codecs[t] \in {"H264", "H265", "bbw"} /\
  \E u \in (IF Idle(t) THEN (IF left > 0 THEN Units(Codecs[t]) ELSE {}) ELSE {open[t].u}) :
    LET f == open[t].f IN
    \E n \in 1..(u.n - f) :
      /\ Nal(t) => n < u.n
      /\ LET last == f + n = u.n
             ps == CASE Codecs[t] = "H264" -> {FuA(u, f, n)} \union (IF f = 0 THEN {FuB(u, n, 7199)} ELSE {})
                     [] Codecs[t] = "H265" -> {Fu5(u, f, n)} [] OTHER -> {Piece(u, f, n)}
         IN /\ open' = [open EXCEPT ![t] = IF last THEN [u |-> None, f |-> 0] ELSE [u |-> u, f |-> f + n]]
            /\ \E p \in ps : Deliver(t, p, last, IF last THEN <<u>> ELSE <<>>)
Next == \E t \in Tracks : One(t) \/ Agg(t) \/ Frag(t)
Spec == Init /\ [][Next]_vars

Exact == got = sent
Clean == \A t \in Tracks : Idle(t) => buf[t] = <<>>
=============================================================================
