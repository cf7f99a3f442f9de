------------------------------- MODULE Depack --------------------------------
(* Media units and the RTP packets that carry them: RFC 3550 (the packet),   *)
(* RFC 6184 (H.264), RFC 7798 without DONL (H.265), one unit per packet,     *)
(* units ended by the marker bit (bbw).  A byte string is a sequence of literal bytes and of slices of *)
(* unit bodies [u, f, n]: unit, first byte, length.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* unit: id, h: header bytes (1 for H.264, 2 for H.265, none otherwise), n: length of the body,
\* b: the body itself if it is given literally
Piece(u, f, n) == IF n = 0 THEN <<>> ELSE IF u.b # <<>> THEN SubSeq(u.b, f + 1, f + n) ELSE <<[u |-> u.id, f |-> f, n |-> n]>>
Whole(u) == u.h \o Piece(u, 0, u.n)
Size(u) == Len(u.h) + u.n
B2(x) == <<x \div 256, x % 256>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE SumSizes(_)
SumSizes(us) == IF us = <<>> THEN 0 ELSE Size(Head(us)) + SumSizes(Tail(us))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* H.264.  Header byte: F(1) NRI(2) type(5) *)
NalType(h) == h % 32
Nri(h) == (h \div 32) % 4
Single(u) == Whole(u)
\* m: for each unit what stands between its size and the unit; don: decoding order number
AggHead(us, type) == MaxOf({Nri(us[i].h[1]) : i \in 1..Len(us)}) * 32 + type
StapA(us) == <<AggHead(us, 24)>> \o Cat([i \in 1..Len(us) |-> B2(Size(us[i])) \o Whole(us[i])])
StapB(us, don) == <<AggHead(us, 25)>> \o B2(don) \o Cat([i \in 1..Len(us) |-> B2(Size(us[i])) \o Whole(us[i])])
Mtap16(us, don, x) == <<AggHead(us, 26)>> \o B2(don) \o Cat([i \in 1..Len(us) |-> B2(Size(us[i])) \o <<i - 1>> \o B2(x) \o Whole(us[i])])
Mtap24(us, don, x) == <<AggHead(us, 27)>> \o B2(don) \o Cat([i \in 1..Len(us) |-> B2(Size(us[i])) \o <<i - 1, 0>> \o B2(x) \o Whole(us[i])])
AggOver264(kind) == CASE kind = "stapa" -> <<1, 2>> [] kind = "stapb" -> <<3, 2>> [] kind = "mtap16" -> <<3, 5>> [] kind = "mtap24" -> <<3, 6>>
Agg264(kind, us, don, x) == CASE kind = "stapa" -> StapA(us) [] kind = "stapb" -> StapB(us, don)
                              [] kind = "mtap16" -> Mtap16(us, don, x) [] kind = "mtap24" -> Mtap24(us, don, x)
\* bytes f+1..f+n of the body; the unit's first fragment has f = 0, its last f + n = u.n
Flags(u, f, n) == (IF f = 0 THEN 128 ELSE 0) + (IF f + n = u.n THEN 64 ELSE 0)
\* the first fragment in interleaved mode: with the decoding order number
FuB(u, n, don) == <<Nri(u.h[1]) * 32 + 29, Flags(u, 0, n) + NalType(u.h[1])>> \o B2(don) \o Piece(u, 0, n)
FuA(u, f, n) == <<Nri(u.h[1]) * 32 + 28, Flags(u, f, n) + NalType(u.h[1])>> \o Piece(u, f, n)

-----------------------------------------------------------------------------
(* H.265.  Header bytes: F(1) type(6) layer(6) TID(3) *)
Type5(u) == u.h[1] \div 2
Layer(u) == (u.h[1] % 2) * 32 + u.h[2] \div 8
Tid(u) == u.h[2] % 8
Hdr5(type, layer, tid) == <<type * 2 + layer \div 32, (layer % 32) * 8 + tid>>
Ap(us) == Hdr5(48, MinOf({Layer(us[i]) : i \in 1..Len(us)}), MinOf({Tid(us[i]) : i \in 1..Len(us)}))
          \o Cat([i \in 1..Len(us) |-> B2(Size(us[i])) \o Whole(us[i])])
Fu5(u, f, n) == Hdr5(49, Layer(u), Tid(u)) \o <<Flags(u, f, n) + Type5(u)>> \o Piece(u, f, n)

-----------------------------------------------------------------------------
(* RTP.  o: the optional parts of a packet: cc contributing sources, ext words of header extension *)
(* (-1: no extension), pad bytes of padding (0: none); x: whatever the opaque bytes are *)
NoOpt == [cc |-> 0, ext |-> -1, pad |-> 0]
First(o) == 128 + (IF o.pad > 0 THEN 32 ELSE 0) + (IF o.ext >= 0 THEN 16 ELSE 0) + o.cc
Fill(n, x) == [i \in 1..n |-> x]
Pre(o, x) == Fill(4 * o.cc, x) \o (IF o.ext < 0 THEN <<>> ELSE <<190, 222>> \o B2(o.ext) \o Fill(4 * o.ext, x))
Post(o, x) == IF o.pad = 0 THEN <<>> ELSE Fill(o.pad - 1, x) \o <<o.pad>>
OptSize(o) == 4 * o.cc + (IF o.ext < 0 THEN 0 ELSE 4 + 4 * o.ext) + o.pad
\* the packet, with its ten bytes of sequence number, timestamp and source
Rtp(o, m, pt, x, p) == <<First(o), m * 128 + pt>> \o Fill(10, x) \o Pre(o, x) \o p \o Post(o, x)

-----------------------------------------------------------------------------
(* A receiver of literal bytes: p.  buf: what it has of an unfinished unit.  *)
(* Result: the units handed over by this packet and the new buf.             *)
Bit(x, v) == (x \div v) % 2 = 1
From(p, i) == SubSeq(p, i, Len(p))
RECURSIVE Split(_, _)
\* aggregated units after the payload header; skip: bytes between a size and its unit
Split(p, skip) == IF Len(p) < 2 + skip THEN <<>>
                  ELSE LET n == p[1] * 256 + p[2] IN <<SubSeq(p, 3 + skip, 2 + skip + n)>> \o Split(From(p, 3 + skip + n), skip)
\* the payload of an RTP packet; nothing if its optional parts do not fit
Body(r) ==
  LET h == 12 + 4 * (r[1] % 16)
      x == Bit(r[1], 16)
      h2 == IF ~x THEN h ELSE IF Len(r) < h + 4 THEN Len(r) ELSE h + 4 + 4 * (r[h + 3] * 256 + r[h + 4])
      end == IF Bit(r[1], 32) THEN Len(r) - r[Len(r)] ELSE Len(r)
  IN SubSeq(r, h2 + 1, end)
Recv264(buf, p) ==
  LET t == NalType(p[1]) IN
  CASE t = 24 -> [out |-> Split(From(p, 2), 0), buf |-> buf]
    [] t = 25 -> [out |-> Split(From(p, 4), 0), buf |-> buf]
    [] t = 26 -> [out |-> Split(From(p, 4), 3), buf |-> buf]
    [] t = 27 -> [out |-> Split(From(p, 4), 4), buf |-> buf]
    [] t = 28 -> LET b == (IF Bit(p[2], 128) THEN <<(p[1] \div 32) * 32 + NalType(p[2])>> ELSE buf) \o From(p, 3)
                 IN IF Bit(p[2], 64) THEN [out |-> <<b>>, buf |-> <<>>] ELSE [out |-> <<>>, buf |-> b]
    [] t = 29 -> LET b == <<(p[1] \div 32) * 32 + NalType(p[2])>> \o From(p, 5)
                 IN IF Bit(p[2], 64) THEN [out |-> <<b>>, buf |-> <<>>] ELSE [out |-> <<>>, buf |-> b]
    [] OTHER -> [out |-> <<p>>, buf |-> buf]
Recv265(buf, p) ==
  LET t == (p[1] \div 2) % 64 IN
  CASE t = 48 -> [out |-> Split(From(p, 3), 0), buf |-> buf]
    [] t = 49 -> LET b == (IF Bit(p[3], 128) THEN <<(p[1] \div 128) * 128 + (p[3] % 64) * 2 + (p[1] % 2), p[2]>> ELSE buf) \o From(p, 4)
                 IN IF Bit(p[3], 64) THEN [out |-> <<b>>, buf |-> <<>>] ELSE [out |-> <<>>, buf |-> b]
    [] OTHER -> [out |-> <<p>>, buf |-> buf]
RecvMark(buf, p, mark) == IF mark THEN [out |-> <<buf \o p>>, buf |-> <<>>] ELSE [out |-> <<>>, buf |-> buf \o p]
RecvSimple(buf, p) == [out |-> IF p = <<>> THEN <<>> ELSE <<p>>, buf |-> buf]
=============================================================================
