------------------------------- MODULE Framing -------------------------------
(* The RTSP stream protocol: the server writes messages - interleaved frames *)
(* and responses - into a byte stream; the client gets back exactly these    *)
(* messages, however the stream arrives.  Abstract level: a message is its   *)
(* kind and the lengths of its parts, the stream is a position.              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Limit    \* receive limit, 65535

VARIABLE f
(* f.msgs  the messages of the server, [k, h, b]: k = "f" frame of 4 + b     *)
(*         bytes (h = 4), k = "r" response, header of h bytes (with the      *)
(*         empty line), body of b bytes                                      *)
(* f.pos   bytes that have arrived    f.eof  the stream has ended            *)
(* f.dlv   messages delivered         f.up   the connection still runs       *)
(* f.out / f.disc  deliveries / disconnected event since the last observation*)

FInit0(msgs) == [msgs |-> msgs, pos |-> 0, eof |-> FALSE, dlv |-> 0, up |-> TRUE, out |-> <<>>, disc |-> FALSE]

Size(m) == m.h + m.b
RECURSIVE SumTo(_, _)
SumTo(ms, i) == IF i = 0 THEN 0 ELSE SumTo(ms, i - 1) + Size(ms[i])
Total(ms) == SumTo(ms, Len(ms))
Least(a, b) == IF a < b THEN a ELSE b

TooLong(m) == m.k = "r" /\ m.h + m.b > Limit
Next1 == f.msgs[f.dlv + 1]
StartN == SumTo(f.msgs, f.dlv)
HasNext == f.dlv < Len(f.msgs)

gFDeliver == f.up /\ HasNext /\ ~TooLong(Next1) /\ f.pos >= StartN + Size(Next1)
FDeliver == gFDeliver /\ f' = [f EXCEPT !.dlv = @ + 1, !.out = Append(@, f.dlv + 1)]

\* a response that does not fit: the connection ends, at the earliest when that can be known,
\* at the latest when all of it has arrived
mayFail == f.up /\ HasNext /\ TooLong(Next1) /\ f.pos >= StartN + Least(Next1.h, Limit)
gFFail == mayFail /\ f.pos >= StartN + Size(Next1)
FFail == mayFail /\ f' = [f EXCEPT !.up = FALSE, !.disc = TRUE]

gFEnd == f.up /\ f.eof /\ ~gFDeliver
FEnd == gFEnd /\ f' = [f EXCEPT !.up = FALSE, !.disc = TRUE]

FInternal == FDeliver \/ FFail \/ FEnd
FStable == ~(gFDeliver \/ gFFail \/ gFEnd)

FArrive(n) == f' = [f EXCEPT !.pos = @ + n]
FClose == f' = [f EXCEPT !.eof = TRUE]
FObserved == f' = [f EXCEPT !.out = <<>>, !.disc = FALSE]
=============================================================================
