------------------------------ MODULE FramingMC ------------------------------
(* The unpacking algorithm on bytes (scaled down) against the abstract       *)
(* behaviour of Framing, for every message sequence, byte by byte (so for    *)
(* every split): a header of two bytes, then either as many bytes as it      *)
(* announces or everything up to a terminator, then as many bytes as the     *)
(* response announces.  Bytes: "$" or "R" start a message, "t" terminates a  *)
(* header, "0".."3" are lengths; bodies may contain any of them.             *)
EXTENDS Framing, TLC
CONSTANT MaxMsgs
VARIABLES sent,             \* the encoded messages
          bytes,            \* not yet arrived
          inb,              \* arrived, not yet read
          pc, buf, need,    \* reader: phase, bytes of the current message, bytes to read
          got               \* what was delivered

Digit(n) == <<"0", "1", "2", "3">>[n + 1]
Num(d) == CHOOSE n \in 0..3 : Digit(n) = d
Bodies == {<<>>, <<"t">>, <<"$", "0">>, <<"R", "1">>, <<"$", "1", "t">>}
Fills == {<<>>, <<"0">>, <<"$">>, <<"R", "$">>, <<"0", "0", "0", "0">>}
Encode(m) == IF m.k = "f" THEN <<"$", Digit(Len(m.body))>> \o m.body
             ELSE <<"R", Digit(Len(m.body))>> \o m.fill \o <<"t">> \o m.body
MCMsgs == {[k |-> "f", fill |-> <<>>, body |-> b] : b \in Bodies}
          \cup {[k |-> "r", fill |-> fl, body |-> b] : fl \in Fills, b \in Bodies}
Abs(m) == [k |-> m.k, h |-> IF m.k = "f" THEN 2 ELSE 3 + Len(m.fill), b |-> Len(m.body)]
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))

mvars == <<f, sent, bytes, inb, pc, buf, need, got>>
MInit == /\ \E n \in 1..MaxMsgs : \E ms \in [1..n -> MCMsgs] :
               /\ f = FInit0([i \in 1..n |-> Abs(ms[i])])
               /\ sent = [i \in 1..n |-> Encode(ms[i])]
               /\ bytes = Concat([i \in 1..n |-> Encode(ms[i])])
         /\ inb = <<>> /\ pc = "head" /\ buf = <<>> /\ need = 2 /\ got = <<>>

Arrive == /\ bytes # <<>> /\ FArrive(1)
          /\ bytes' = Tail(bytes) /\ inb' = Append(inb, Head(bytes))
          /\ UNCHANGED <<sent, pc, buf, need, got>>

Deliver(b) == got' = Append(got, b) /\ pc' = "head" /\ buf' = <<>> /\ need' = 2
\* all needed bytes of the phase are there
Read ==
  /\ pc # "dead" /\ Len(inb) >= need /\ UNCHANGED <<f, sent, bytes>>
  /\ LET b == buf \o SubSeq(inb, 1, need) IN
     /\ inb' = SubSeq(inb, need + 1, Len(inb))
     /\ CASE pc = "head" ->
               IF b[1] = "$" THEN IF Num(b[2]) = 0 THEN Deliver(b)
                                  ELSE pc' = "body" /\ need' = Num(b[2]) /\ buf' = b /\ UNCHANGED got
               ELSE pc' = "term" /\ need' = 1 /\ buf' = b /\ UNCHANGED got
          [] pc = "term" ->
               IF b[Len(b)] = "t"
               THEN IF Len(b) + Num(b[2]) > Limit THEN pc' = "dead" /\ UNCHANGED <<need, buf, got>>
                    ELSE IF Num(b[2]) = 0 THEN Deliver(b)
                    ELSE pc' = "body" /\ need' = Num(b[2]) /\ buf' = b /\ UNCHANGED got
               ELSE IF Len(b) + 1 > Limit THEN pc' = "dead" /\ UNCHANGED <<need, buf, got>>
               ELSE pc' = "term" /\ buf' = b /\ UNCHANGED <<need, got>>
          [] pc = "body" -> Deliver(b)
MNext == Read \/ Arrive
MSpec == MInit /\ [][MNext]_mvars

\* what Framing delivers of a stream of which pos bytes have arrived
Fits(i) == \A j \in 1..i : ~TooLong(f.msgs[j])
AbsDlv == CHOOSE i \in 0..Len(f.msgs) :
            /\ Fits(i) /\ SumTo(f.msgs, i) <= f.pos
            /\ i < Len(f.msgs) => ~(Fits(i + 1) /\ SumTo(f.msgs, i + 1) <= f.pos)
Blocked == pc = "dead" \/ Len(inb) < need
SameAsAbstract == Blocked => got = SubSeq(sent, 1, AbsDlv)
DeadOnlyIfTooLong == pc = "dead" => AbsDlv < Len(f.msgs) /\ TooLong(f.msgs[AbsDlv + 1])
DeadIfTooLong == (Blocked /\ AbsDlv < Len(f.msgs) /\ TooLong(f.msgs[AbsDlv + 1])
                  /\ f.pos >= SumTo(f.msgs, AbsDlv + 1)) => pc = "dead"
=============================================================================
