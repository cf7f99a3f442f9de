-------------------------------- MODULE Conn --------------------------------
(* tcpnetwork.Connection: callers of Send/Close, the bounded send queue, the *)
(* sender routine, the main/read routine, the event handler and the         *)
(* transport below.  One action per critical section of the code; every     *)
(* action named I... is an internal step, E... a step of the environment     *)
(* (user, peer, transport, clock).  Time is in milliseconds.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT SendTimeout       \* 5000

VARIABLE s
(* s.cap    capacity of the send queue        s.hdr  protocol has headers    *)
(* s.now    clock                             s.tleft rest of a pending tick *)
(* s.st     "none" | "conn" | "disc"          status of the connection       *)
(* s.sock   "open" | "closed"                 transport closed by us         *)
(* s.q      send queue of message ids, 0 is the close mark                   *)
(* s.quit   the connection was torn down                                     *)
(* s.wmode  "ok" | "stall" | "fail"           what the transport's Write does*)
(* s.hold / s.hser / s.hclose                 handler / SerializeHeader /    *)
(*                                            transport Close are held       *)
(* s.boom   "" | "handler" | "proto"          next callback of it panics     *)
(* s.spc, s.item   sender routine             s.rpc main/read routine        *)
(* s.calls  pending calls [c, k, rest, pc, dl]                               *)
(* s.arr    messages completely arrived       s.dlv delivered                *)
(* s.rend   the stream has ended                                             *)
(* s.ph     parts of a further, incomplete message that are complete:        *)
(*          0 none, 1 header, 2 header and body                              *)
(* s.rto    read timeout, 0: none             s.rdl end of the running wait  *)
(*                                            for a part, -1: none           *)
(* s.ev, s.ret, s.wr   what became observable since the last observation     *)

Init0(cap, rto) ==
  [cap |-> cap, rto |-> rto, rdl |-> -1, ph |-> 0, now |-> 0, tleft |-> 0, st |-> "none", sock |-> "open", q |-> <<>>, quit |-> FALSE,
   wmode |-> "ok", hold |-> FALSE, hser |-> FALSE, hclose |-> FALSE, boom |-> "",
   spc |-> "none", item |-> 0, rpc |-> "none", calls |-> {}, arr |-> 0, dlv |-> 0, rend |-> FALSE,
   nrun |-> 0, ev |-> <<>>, ret |-> {}, wr |-> <<>>]

-----------------------------------------------------------------------------
(* calls *)

\* room for one more message: the queue has room, or (no queue) the sender is waiting for one
Room == Len(s.q) < s.cap \/ (s.cap = 0 /\ s.q = <<>> /\ s.spc = "idle")

Upd(call, new) == [s EXCEPT !.calls = (@ \ {call}) \cup {new}]
Skip(call) == [call EXCEPT !.rest = Tail(@), !.pc = "try", !.dl = -1]

\* the call has nothing left to do
gReturn(call) == call.pc = "try" /\ call.rest = <<>>
IReturn == \E call \in s.calls : gReturn(call) /\
  s' = [s EXCEPT !.calls = @ \ {call}, !.ret = @ \cup {call.c}]

\* not connected: nothing is queued
gRefuse(call) == call.pc = "try" /\ call.rest # <<>> /\ s.st # "conn"
IRefuse == \E call \in s.calls : gRefuse(call) /\ s' = Upd(call, Skip(call))

gEnq(call) == /\ \/ call.pc = "try" /\ call.rest # <<>> /\ s.st = "conn"
                 \/ call.pc = "blk"
              /\ Room
IEnq == \E call \in s.calls : gEnq(call) /\
  s' = [Upd(call, Skip(call)) EXCEPT !.q = Append(@, Head(call.rest))]

\* torn down meanwhile: the message is dropped
gGone(call) == /\ \/ call.pc = "try" /\ call.rest # <<>> /\ s.st = "conn"
                  \/ call.pc = "blk"
               /\ s.quit
IGone == \E call \in s.calls : gGone(call) /\ s' = Upd(call, Skip(call))

gBlock(call) == call.pc = "try" /\ call.rest # <<>> /\ s.st = "conn" /\ ~Room /\ ~s.quit
IBlock == \E call \in s.calls : gBlock(call) /\
  s' = Upd(call, [call EXCEPT !.pc = "blk", !.dl = s.now + SendTimeout])

\* send timeout: close the transport (Connection.close), then mark it disconnected
gExpire(call) == call.pc = "blk" /\ s.now >= call.dl
IExpire == \E call \in s.calls : gExpire(call) /\
  s' = IF s.st = "conn" THEN [Upd(call, [call EXCEPT !.pc = "cls"]) EXCEPT !.sock = "closed"]
       ELSE Upd(call, Skip(call))
gExpired(call) == call.pc = "cls" /\ ~s.hclose
IExpired == \E call \in s.calls : gExpired(call) /\
  s' = [Upd(call, Skip(call)) EXCEPT !.st = "disc"]

-----------------------------------------------------------------------------
(* sender routine *)

gSndStart == s.spc = "none" /\ s.rpc \in {"read", "data"}
\* whether it already runs while the connected event is being handled is left open
ISndStart == s.spc = "none" /\ s.rpc \in {"start", "econn", "read", "data"} /\ s' = [s EXCEPT !.spc = "idle"]

gTake == s.spc = "idle" /\ s.q # <<>>
ITake == gTake /\
  s' = IF Head(s.q) = 0
       THEN IF s.st = "conn" THEN [s EXCEPT !.q = Tail(@), !.spc = "cls", !.sock = "closed"]
            ELSE [s EXCEPT !.q = Tail(@), !.spc = "done"]
       ELSE [s EXCEPT !.q = Tail(@), !.item = Head(s.q), !.spc = "ser"]

gSndQuit == s.spc = "idle" /\ s.quit
ISndQuit == gSndQuit /\ s' = [s EXCEPT !.spc = "done"]

gSerialized == s.spc = "ser" /\ ~s.hser
ISerialized == gSerialized /\ s' = [s EXCEPT !.spc = "write"]

\* a failing transport may still take some bytes, also whole messages
gWrite == s.spc = "write" /\ s.wmode \in {"ok", "fail"} /\ s.sock = "open"
IWrite == gWrite /\ s' = [s EXCEPT !.wr = Append(@, s.item), !.item = 0, !.spc = "idle"]

gWriteErr == s.spc = "write" /\ (s.wmode = "fail" \/ s.sock = "closed")
IWriteErr == gWriteErr /\
  s' = IF s.st = "conn" THEN [s EXCEPT !.spc = "cls", !.sock = "closed"] ELSE [s EXCEPT !.spc = "done"]

gSndClosed == s.spc = "cls" /\ ~s.hclose
ISndClosed == gSndClosed /\ s' = [s EXCEPT !.spc = "done", !.st = "disc"]

-----------------------------------------------------------------------------
(* main / read routine and event handler *)

gStart == s.rpc = "start"
IStart == gStart /\ s' = [s EXCEPT !.rpc = "econn", !.ev = Append(@, "conn")]

\* a wait for the next part of a message begins
Limit == IF s.rto = 0 THEN -1 ELSE s.now + s.rto

gHandled == s.rpc \in {"econn", "data"} /\ ~s.hold
IHandled == gHandled /\
  s' = IF s.boom = "handler" THEN [s EXCEPT !.rpc = "down", !.boom = ""] ELSE [s EXCEPT !.rpc = "read", !.rdl = Limit]

\* buffered messages may still be delivered after the transport was closed locally
gDeliver == s.rpc = "read" /\ s.dlv < s.arr /\ s.boom # "proto" /\ s.sock = "open"
IDeliver == s.rpc = "read" /\ s.dlv < s.arr /\ s.boom # "proto" /\
  s' = [s EXCEPT !.rpc = "data", !.rdl = -1, !.dlv = @ + 1, !.ev = Append(@, ToString(s.dlv + 1))]

\* the protocol panics on the next message
gProtoBoom == s.rpc = "read" /\ s.dlv < s.arr /\ s.boom = "proto"
IProtoBoom == gProtoBoom /\ s' = [s EXCEPT !.rpc = "down", !.rdl = -1, !.boom = ""]

\* the part it waits for did not arrive in time
TimedOut == s.rdl >= 0 /\ s.now >= s.rdl /\ s.dlv = s.arr
gReadEnd == s.rpc = "read" /\ (s.sock = "closed" \/ (s.rend /\ s.dlv = s.arr) \/ TimedOut)
IReadEnd == gReadEnd /\ s' = [s EXCEPT !.rpc = "down", !.rdl = -1]

gDown == s.rpc = "down"
IDown == gDown /\
  s' = IF s.st = "conn" THEN [s EXCEPT !.rpc = "cls", !.sock = "closed"] ELSE [s EXCEPT !.rpc = "gone"]
gMainClosed == s.rpc = "cls" /\ ~s.hclose
IMainClosed == gMainClosed /\ s' = [s EXCEPT !.rpc = "gone", !.st = "disc"]

gGoneEv == s.rpc = "gone"
IGoneEv == gGoneEv /\ s' = [s EXCEPT !.rpc = "edisc", !.quit = TRUE, !.ev = Append(@, "disc")]
gDiscHandled == s.rpc = "edisc" /\ ~s.hold
IDiscHandled == gDiscHandled /\ s' = [s EXCEPT !.rpc = "done"]

-----------------------------------------------------------------------------

IntCalls == IReturn \/ IRefuse \/ IEnq \/ IGone \/ IBlock \/ IExpire \/ IExpired
IntSender == ISndStart \/ ITake \/ ISndQuit \/ ISerialized \/ IWrite \/ IWriteErr \/ ISndClosed
IntMain == IStart \/ IHandled \/ IDeliver \/ IProtoBoom \/ IReadEnd \/ IDown \/ IMainClosed \/ IGoneEv \/ IDiscHandled

\* nothing but the environment can move
Quiet ==
  /\ \A call \in s.calls : ~(gReturn(call) \/ gRefuse(call) \/ gEnq(call) \/ gGone(call) \/ gBlock(call)
                             \/ gExpire(call) \/ gExpired(call))
  /\ ~(gSndStart \/ gTake \/ gSndQuit \/ gSerialized \/ gWrite \/ gWriteErr \/ gSndClosed)
  /\ ~(gStart \/ gHandled \/ gDeliver \/ gProtoBoom \/ gReadEnd \/ gDown \/ gMainClosed \/ gGoneEv \/ gDiscHandled)

\* the clock moves only when nothing else can, and stops at every deadline
Deadlines == {call.dl : call \in {x \in s.calls : x.pc = "blk"}} \cup (IF s.rpc = "read" /\ s.rdl >= 0 THEN {s.rdl} ELSE {})
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
IClock == s.tleft > 0 /\ Quiet /\
  LET d == Min({s.tleft} \cup {t - s.now : t \in {x \in Deadlines : x > s.now}})
  IN s' = [s EXCEPT !.now = @ + d, !.tleft = @ - d]

Internal == IntCalls \/ IntSender \/ IntMain \/ IClock
Stable == Quiet /\ s.tleft = 0

-----------------------------------------------------------------------------
(* environment *)

ERun == s.st = "none" /\ s.rpc = "none" /\ s' = [s EXCEPT !.st = "conn", !.rpc = "start", !.nrun = 1]
ESend(c, ids) == s' = [s EXCEPT !.calls = @ \cup {[c |-> c, k |-> "send", rest |-> ids, pc |-> "try", dl |-> -1]}]
EClose(c) == s' = [s EXCEPT !.calls = @ \cup {[c |-> c, k |-> "close", rest |-> <<0>>, pc |-> "try", dl |-> -1]}]
\* n further messages complete; or (0) some bytes of the next one, of which then ph parts are complete
EFeed(n, ph) == s' = [s EXCEPT !.arr = @ + n, !.ph = ph, !.rdl = IF @ >= 0 /\ n = 0 /\ ph > s.ph THEN Limit ELSE @]
EEnd == s' = [s EXCEPT !.rend = TRUE]            \* end of stream or read error
EWrites(m) == s' = [s EXCEPT !.wmode = m]
EHold(b) == s' = [s EXCEPT !.hold = b]
EHoldSer(b) == s' = [s EXCEPT !.hser = b]
EHoldClose(b) == s' = [s EXCEPT !.hclose = b]
EBoom(x) == s' = [s EXCEPT !.boom = x]
ETick(d) == Stable /\ s' = [s EXCEPT !.tleft = d]

-----------------------------------------------------------------------------
(* what an observation at a stable state shows *)

StatusNum == CASE s.st = "none" -> 0 [] s.st = "conn" -> 1 [] s.st = "disc" -> 2
\* everything of the connection must be gone
MustBeGone == s.rpc = "done" /\ ~s.hser /\ ~s.hclose
Observed == s' = [s EXCEPT !.ev = <<>>, !.ret = {}, !.wr = <<>>]
=============================================================================
