-------------------------------- MODULE Havoc --------------------------------
(* What remains certain about a client whatever bytes its servers send: calls *)
(* return in time, each connection that ends has exactly one disconnected     *)
(* event, nothing comes after it and nothing is left behind.  What the bytes  *)
(* mean is left open: the client may return, report and disconnect at any     *)
(* time.  Time is in milliseconds.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT ReplyTimeout     \* 2000
VARIABLE z
(* z.now                                                                      *)
(* z.g      connections: [eof: the server has ended it, last: time of its     *)
(*          last bytes, end: it has ended (disconnected event)]               *)
(* z.calls  calls under way: [c, op, t: began, g: connection of a Play]       *)
(* z.h      callbacks since the last observation: "data", "disc"              *)
(* z.rets   returned calls, z.evs request events since then                   *)

HInit == z = [now |-> 0, g |-> <<>>, calls |-> {}, h |-> <<>>, rets |-> {}, evs |-> 0]
Cur == Len(z.g)
Live == Cur > 0 /\ ~z.g[Cur].end
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* environment *)
ECall(c, op) ==
  IF op = "play"
  THEN z' = [z EXCEPT !.g = Append(@, [eof |-> FALSE, last |-> z.now, end |-> FALSE]),
                      !.calls = @ \cup {[c |-> c, op |-> op, t |-> z.now, g |-> Cur + 1]}]
  ELSE z' = [z EXCEPT !.calls = @ \cup {[c |-> c, op |-> op, t |-> z.now, g |-> Cur]}]
EFeed == IF Cur = 0 THEN UNCHANGED z ELSE z' = [z EXCEPT !.g[Cur].last = z.now]
EEnd == IF Cur = 0 THEN UNCHANGED z ELSE z' = [z EXCEPT !.g[Cur].eof = TRUE, !.g[Cur].last = z.now]
\* the time at which a call has to be back
Due(call) == IF call.op = "play" THEN Max2(call.t, z.g[call.g].last) + ReplyTimeout
             ELSE IF call.op \in {"wait", "close"} THEN call.t + ReplyTimeout
             ELSE call.t
Late(call) == z.now >= Due(call) \/ (call.g > 0 /\ z.g[call.g].eof)
\* what must happen before time goes on or an observation is made
Owed == (\E call \in z.calls : Late(call)) \/ (Live /\ z.g[Cur].eof)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the clock stops when a call is due
ETick(d) == z' = [z EXCEPT !.now = @ + d]
Step(left) == Min({left} \cup {Due(call) - z.now : call \in {x \in z.calls : Due(x) > z.now}})

(* client *)
IReturn == \E call \in z.calls :
  z' = [z EXCEPT !.calls = @ \ {call}, !.rets = @ \cup {call.c}, !.evs = IF call.op = "play" THEN @ + 1 ELSE @]
IData == Live /\ Len(z.h) < 3 /\ z' = [z EXCEPT !.h = Append(@, "data")]
\* a Play of the connection is done before
IDisc == Live /\ (\A call \in z.calls : call.op # "play") /\ z' = [z EXCEPT !.h = Append(@, "disc"), !.g[Cur].end = TRUE]
Client == IReturn \/ IData \/ IDisc
Observed == z' = [z EXCEPT !.h = <<>>, !.rets = {}, !.evs = 0]
=============================================================================
