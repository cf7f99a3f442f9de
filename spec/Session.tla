------------------------------- MODULE Session -------------------------------
(* RtspClientSession: the calls of the user (Play, Close, the Send... calls, *)
(* Wait), the connections it has had (generations), the handler routine of   *)
(* each, the response queue and the transport below.  I... actions are       *)
(* internal steps, E... steps of the environment (user, server, transport,   *)
(* clock).  Time is in milliseconds.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS ReplyTimeout,   \* 2000
          CloseTime       \* time a WebSocket that takes no bytes may need to close (1000)

VARIABLE z
(* z.now, z.tleft   clock, rest of a pending tick                            *)
(* z.cseq           CSeq of the next request                                 *)
(* z.idle           no request is waiting for its reply                      *)
(* z.sid            session id assigned by the server, 0: none               *)
(* z.auth           "-" | "B" | "D"   authorization the requests carry       *)
(* z.cred           the URL carries user name and password                   *)
(* z.tr             tracks of the description: "no" | "sent" (SETUP is       *)
(*                  unanswered or refused) | "up"                            *)
(* z.g              generations, records as in NewGen                        *)
(* z.calls          calls under way, records as in NewCall                   *)
(* z.holdd/z.holdx  the data handler / the disconnected handler is held      *)
(* z.nest           what the user does inside the next such callback         *)
(* z.wmode          what the transport does with writes                      *)
(* z.ws             the transport is a WebSocket                             *)
(* z.reqs, z.rets, z.evs, z.h   what became observable since the last        *)
(*                  observation: requests written, returned calls, number of *)
(*                  request-success / -error events, data and disconnected   *)
(*                  callbacks in their order                                 *)

NoNest == [on |-> "", c |-> 0, op |-> "", cred |-> FALSE]
ZInit0(cseq, ws) ==
  [ws |-> ws, now |-> 0, tleft |-> 0, cseq |-> cseq, idle |-> TRUE, sid |-> 0, auth |-> "-", cred |-> FALSE,
   tr |-> <<>>, g |-> <<>>, calls |-> {}, holdd |-> FALSE, holdx |-> FALSE, nest |-> NoNest, wmode |-> "ok",
   reqs |-> <<>>, rets |-> {}, evs |-> [ok |-> 0, err |-> 0], h |-> <<>>]

\* sq: queued for writing; inq: arrived, not handled; eof; lcl: closed by us, the rest of what arrived
\* may be dropped; cdl: when a slow transport is closed at the latest; resp: response queue (at most one); main: the reading side runs;
\* hpc: "idle" | "cb" in the data callback | "dcb" in the disconnected callback | "done"; hc: nested call
NewGen == [sq |-> <<>>, st |-> "conn", inq |-> <<>>, eof |-> FALSE, lcl |-> FALSE, resp |-> <<>>,
           main |-> TRUE, hpc |-> "idle", hc |-> 0, cdl |-> -1]
\* op: "play" | "badplay" (the server cannot be reached) | "close" | "describe" | "setup" | "startplay" | "pause" | "teardown" | "wait"
\* pc: "go" | "wait" | "step" has its reply r | "cb" in an event callback of Play; k, i: the reply a Play waits for
NoReply == [k |-> "-"]
NewCall(c, op, a) == [c |-> c, op |-> op, a |-> a, pc |-> "go", g |-> 0, dl |-> -1, k |-> "", i |-> 0, n |-> 0, res |-> "", hc |-> 0,
                      r |-> NoReply]

Cur == Len(z.g)
Down(zz, g) == zz.g[g].st = "disc"

-----------------------------------------------------------------------------
(* helpers on states.  A reply reaches a waiting call in one step, what the  *)
(* call makes of it is another: other calls and the connection may move      *)
(* between them.                                                             *)

SetGen(zz, g, new) == [zz EXCEPT !.g[g] = new]
SetCall(zz, call, new) == [zz EXCEPT !.calls = (@ \ {call}) \cup {new}]
Ret(zz, call, r) == [zz EXCEPT !.calls = @ \ {call}, !.rets = @ \cup {[c |-> call.c, r |-> r]}]

\* the transport is closed by us: nothing more is written, what arrived may be dropped
CloseGen(zz, g) == [zz EXCEPT !.g[g].st = "disc", !.g[g].lcl = TRUE, !.g[g].sq = <<>>]
Mark(zz, g) == IF zz.g[g].st = "conn" THEN [zz EXCEPT !.g[g].sq = Append(@, [m |-> "X"])] ELSE zz

Req(zz, m, u, x) == [m |-> m, u |-> u, cseq |-> zz.cseq, sid |-> zz.sid, auth |-> zz.auth, x |-> x]
\* a request is queued (lost if the connection is gone); a response nobody waited for is dropped
Send(zz, m, u, x) ==
  LET g == Len(zz.g)
      y == [zz EXCEPT !.idle = FALSE, !.cseq = @ + 1, !.g[g].resp = <<>>]
  IN IF zz.g[g].st = "conn" THEN [y EXCEPT !.g[g].sq = Append(@, Req(zz, m, u, x))] ELSE y
ToWait(zz, call, k, i) ==
  SetCall(zz, call, [call EXCEPT !.pc = "wait", !.g = Len(zz.g), !.dl = zz.now + ReplyTimeout, !.k = k, !.i = i, !.n = zz.cseq])

DescX == "-"
SetupX(i) == ToString(2 * (i - 1)) \o "-" \o ToString(2 * (i - 1) + 1)
PlayX(st, sp) == "r" \o ToString(st) \o "s" \o ToString(sp)

\* a callback on the thread of Play, then Play returns; the user may do something in the callback
Finish(zz, call, res) ==
  LET y == [zz EXCEPT !.evs = IF res = "ok" THEN [@ EXCEPT !.ok = @ + 1] ELSE [@ EXCEPT !.err = @ + 1]]
      n == zz.nest
  IN IF n.on = res
     THEN [SetCall(y, call, [call EXCEPT !.pc = "cb", !.hc = n.c, !.res = res])
             EXCEPT !.nest = NoNest, !.calls = @ \cup {NewCall(n.c, n.op, [cred |-> n.cred])}]
     ELSE Ret(y, call, res)

\* the DESCRIBE, the SETUP of track i, the PLAY of a handshake
\* (given up if somebody else's request is outstanding)
DoDescribe(zz, call, k) == IF ~zz.idle THEN Finish(zz, call, "err") ELSE ToWait(Send(zz, "DESCRIBE", "u", DescX), call, k, 0)
DoSetup(zz, call, i) == IF ~zz.idle THEN Finish([zz EXCEPT !.tr[i] = "sent"], call, "err") ELSE ToWait([Send(zz, "SETUP", "t" \o ToString(i), SetupX(i)) EXCEPT !.tr[i] = "sent"], call, "s", i)
DoPlay(zz, call) == IF ~zz.idle THEN Finish(zz, call, "err") ELSE ToWait(Send(zz, "PLAY", "u", PlayX(0, 1)), call, "p", 0)

Scheme(ch) == IF "digest" \in ch THEN "D" ELSE IF "basic" \in ch THEN "B" ELSE "-"
\* a reply reaches a Play
Step(zz, call, r) ==
  CASE r.k = "bad" -> Finish(zz, call, "err")
    [] r.k = "rep" /\ call.k = "d1" /\ r.st = 401 /\ zz.cred ->
         DoDescribe([zz EXCEPT !.auth = Scheme(r.ch)],
                    call, "d2")
    [] r.k = "rep" /\ r.st # 200 -> Finish(zz, call, "err")
    [] r.k = "rep" /\ r.st = 200 /\ call.k \in {"d1", "d2"} ->
         IF r.nt = 0 THEN Finish(zz, call, "err")
         ELSE DoSetup([zz EXCEPT !.tr = [i \in 1..r.nt |-> "no"]], call, 1)
    [] r.k = "rep" /\ r.st = 200 /\ call.k = "s" ->
         LET y == [zz EXCEPT !.tr[call.i] = "up", !.sid = IF r.sid # 0 THEN r.sid ELSE @]
         IN IF call.i < Len(zz.tr) THEN DoSetup(y, call, call.i + 1) ELSE DoPlay(y, call)
    [] r.k = "rep" /\ r.st = 200 /\ call.k = "p" -> Finish(zz, call, "ok")

\* a waiting call got a reply, or an error: requests may be sent again, unless one was sent since it began to wait
Got(zz, call, r) ==
  LET y == [zz EXCEPT !.idle = IF call.g = Len(zz.g) /\ call.n = zz.cseq THEN TRUE ELSE @] IN
  IF call.op = "wait" THEN Ret(y, call, IF r.k = "rep" THEN ToString(r.st) ELSE "err")
  ELSE SetCall(y, call, [call EXCEPT !.pc = "step", !.r = r])
Failed(zz, call) == Got(zz, call, [k |-> "bad"])

-----------------------------------------------------------------------------
(* calls *)

\* no connection comes about
NoServer(call) == Ret([z EXCEPT !.h = Append(@, "disc0")], call, "err")
gDial(call) == call.pc = "dial" /\ z.now >= call.dl
IDial == \E call \in z.calls : gDial(call) /\ z' = NoServer(call)
GoCalls == {call \in z.calls : call.pc = "go"}
IGo == \E call \in GoCalls :
  z' = CASE call.op = "play" ->
              DoDescribe([z EXCEPT !.g = Append(@, NewGen), !.idle = TRUE, !.sid = 0, !.auth = "-", !.tr = <<>>,
                                   !.cred = call.a.cred], call, "d1")
         [] call.op = "close" ->
              IF Cur = 0 \/ Down(z, Cur) THEN Ret(z, call, "done")
              ELSE ToWait(IF z.idle THEN Send(z, "TEARDOWN", "u", DescX) ELSE z, call, "", 0)
         [] call.op = "badplay" ->
              IF Cur > 0 /\ ~Down(z, Cur) THEN Ret(z, call, "err")
              ELSE IF call.a.slow THEN SetCall(z, call, [call EXCEPT !.pc = "dial", !.dl = z.now + ReplyTimeout])
              ELSE NoServer(call)
         [] Cur = 0 -> Ret(z, call, "err")
         [] call.op = "wait" -> ToWait(z, call, "", 0)
         [] OTHER ->
              IF ~z.idle THEN Ret(z, call, "err")
              ELSE Ret(CASE call.op = "describe" -> Send(z, "DESCRIBE", "u", DescX)
                         [] call.op = "setup" -> Send(z, "SETUP", "m", call.a.x)
                         [] call.op = "startplay" -> Send(z, "PLAY", "u", PlayX(call.a.start, call.a.speed))
                         [] call.op = "pause" -> Send(z, "PAUSE", "u", DescX)
                         [] call.op = "teardown" -> Send(z, "TEARDOWN", "u", DescX), call, "ok")

Waiting == {call \in z.calls : call.pc = "wait"}
gReply(call) == call.pc = "wait" /\ z.g[call.g].resp # <<>>
IReply == \E call \in Waiting : gReply(call) /\
  z' = Got([z EXCEPT !.g[call.g].resp = Tail(@)], call, Head(z.g[call.g].resp))
\* the connection is gone: noticed at the latest when everything that arrived before is handled
Over(g) == ~z.g[g].main /\ (z.g[g].hpc \in {"dcb", "done"} \/ (z.g[g].hpc = "idle" /\ (z.g[g].inq = <<>> \/ z.g[g].lcl)))
gLost(call) == call.pc = "wait" /\ Over(call.g) /\ z.g[call.g].resp = <<>>
ILost == \E call \in Waiting : Down(z, call.g) /\ z' = Failed(z, call)
gStep(call) == call.pc = "step"
IStep == \E call \in z.calls : gStep(call) /\
  LET c == [call EXCEPT !.r = NoReply]
      y == SetCall(z, call, c)
  IN z' = IF call.op = "close" THEN Ret(Mark(y, call.g), c, "done") ELSE Step(y, c, call.r)
\* what it keeps of the reply may be in force for others before the next request is sent
IStore == \E call \in z.calls : gStep(call) /\ call.r.k = "rep" /\
  \/ call.op = "play" /\ call.k = "s" /\ call.r.st = 200 /\ call.r.sid \notin {0, z.sid} /\ z' = [z EXCEPT !.sid = call.r.sid]
  \/ call.op = "play" /\ call.k = "d1" /\ call.r.st = 401 /\ z.cred /\ z.auth = "-" /\ Scheme(call.r.ch) # "-"
     /\ z' = [z EXCEPT !.auth = Scheme(call.r.ch)]
  \/ call.op = "play" /\ call.k \in {"d1", "d2", "s"} /\ call.r.st = 200 /\
     LET t == IF call.k = "s" THEN [i \in 1..Len(z.tr) |-> IF i = call.i THEN "up" ELSE IF i = call.i + 1 THEN "sent" ELSE z.tr[i]]
              ELSE [i \in 1..call.r.nt |-> IF i = 1 THEN "sent" ELSE "no"]
     IN t # z.tr /\ z' = [z EXCEPT !.tr = t]
gTimeout(call) == call.pc = "wait" /\ z.now >= call.dl
ITimeout == \E call \in Waiting : gTimeout(call) /\ z' = Failed(Mark(z, call.g), call)

\* back from a callback of Play
Pending(c) == \E call \in z.calls : call.c = c
gBack(call) == call.pc = "cb" /\ ~Pending(call.hc)
IBack == \E call \in z.calls : gBack(call) /\ z' = Ret(z, call, call.res)

-----------------------------------------------------------------------------
(* the connection: sender, reading side, handler routine *)

\* a WebSocket that takes no bytes is closed only after it could not take a close frame either
Slow == z.ws /\ z.wmode = "stall"
InTime(g) == ~Slow \/ (z.g[g].cdl >= 0 /\ z.now >= z.g[g].cdl)
AtX(g) == z.g[g].sq # <<>> /\ Head(z.g[g].sq).m = "X"
gSend(g) == z.g[g].sq # <<>> /\ (IF AtX(g) THEN InTime(g) ELSE z.wmode # "stall")
ISend == \E g \in 1..Cur : (gSend(g) \/ AtX(g)) /\
  LET r == Head(z.g[g].sq) IN
  IF r.m = "X" THEN z' = CloseGen(z, g)
  ELSE \/ z' = [z EXCEPT !.g[g].sq = Tail(@), !.reqs = Append(@, [g |-> g] @@ r)]
       \/ z.wmode = "fail" /\ z' = CloseGen(z, g)

\* the stream has ended (what arrived before is still handled) or we closed it
Ending(g) == z.g[g].main /\ z.g[g].hpc = "idle" /\ (z.g[g].lcl \/ (z.g[g].eof /\ z.g[g].inq = <<>>))
gMainDown(g) == Ending(g) /\ InTime(g)
gClosing(g) == Slow /\ z.g[g].cdl = -1 /\ (AtX(g) \/ Ending(g))
IClosing == \E g \in 1..Cur : gClosing(g) /\ z' = [z EXCEPT !.g[g].cdl = z.now + CloseTime]
IMainDown == \E g \in 1..Cur : z.g[g].main /\ (z.g[g].lcl \/ z.g[g].eof) /\
  z' = [z EXCEPT !.g[g].main = FALSE, !.g[g].st = "disc", !.g[g].sq = <<>>]

Even(n) == n % 2 = 0
Track(ch) == IF Even(ch) /\ (ch \div 2) + 1 <= Len(z.tr) THEN z.tr[(ch \div 2) + 1] ELSE "no"
gHandle(g) == z.g[g].hpc = "idle" /\ z.g[g].inq # <<>> /\ ~z.g[g].lcl
IHandle == \E g \in 1..Cur : z.g[g].hpc = "idle" /\ z.g[g].inq # <<>> /\
  LET m == Head(z.g[g].inq)
      y == [z EXCEPT !.g[g].inq = Tail(@)]
  IN IF m.k \in {"rep", "bad"}
     THEN z' = IF z.g[g].resp = <<>> THEN [y EXCEPT !.g[g].resp = <<m>>] ELSE y
     ELSE \/ m.k = "rtp" /\ Track(m.ch) # "no" /\
             LET n == z.nest
                 d == [y EXCEPT !.g[g].hpc = "cb", !.h = Append(@, "d" \o ToString(g) \o ":" \o ToString(m.ch) \o ":" \o ToString(m.id))]
             IN z' = IF n.on = "data"
                     THEN [d EXCEPT !.g[g].hc = n.c, !.nest = NoNest, !.calls = @ \cup {NewCall(n.c, n.op, [cred |-> n.cred])}]
                     ELSE d
          \/ (IF m.k = "junk" THEN TRUE ELSE Track(m.ch) # "up") /\ z' = y
gHandled(g) == z.g[g].hpc = "cb" /\ ~z.holdd /\ ~Pending(z.g[g].hc)
IHandled == \E g \in 1..Cur : gHandled(g) /\ z' = [z EXCEPT !.g[g].hpc = "idle", !.g[g].hc = 0]

\* what arrived before a local close may be dropped; a Play under way is done with the connection
gDisc(g) == (\A call \in z.calls : call.op # "play" \/ call.g # g \/ call.pc = "cb") /\ ~z.g[g].main /\ z.g[g].hpc = "idle" /\ (z.g[g].inq = <<>> \/ z.g[g].lcl)
IDisc == \E g \in 1..Cur : gDisc(g) /\
  LET n == z.nest
      \* the event does not tell which connection it is about: they are counted
      k == Cardinality({x \in 1..Cur : z.g[x].hpc \in {"dcb", "done"}}) + 1
      d == [z EXCEPT !.g[g].hpc = "dcb", !.g[g].inq = <<>>, !.h = Append(@, "disc" \o ToString(k))]
  IN z' = IF n.on = "disc"
          THEN [d EXCEPT !.g[g].hc = n.c, !.nest = NoNest, !.calls = @ \cup {NewCall(n.c, n.op, [cred |-> n.cred])}]
          ELSE d
gDiscDone(g) == z.g[g].hpc = "dcb" /\ ~z.holdx /\ ~Pending(z.g[g].hc)
IDiscDone == \E g \in 1..Cur : gDiscDone(g) /\ z' = [z EXCEPT !.g[g].hpc = "done", !.g[g].hc = 0]

-----------------------------------------------------------------------------

Quiet ==
  /\ GoCalls = {}
  /\ \A call \in z.calls : ~(gDial(call) \/ gReply(call) \/ gStep(call) \/ gLost(call) \/ gTimeout(call) \/ gBack(call))
  /\ \A g \in 1..Cur : ~(gClosing(g) \/ gSend(g) \/ gMainDown(g) \/ gHandle(g) \/ gHandled(g) \/ gDisc(g) \/ gDiscDone(g))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
IClock == z.tleft > 0 /\ Quiet /\
  LET d == Min({z.tleft} \cup {call.dl - z.now : call \in {x \in Waiting : x.dl > z.now}}
                  \cup {z.g[g].cdl - z.now : g \in {x \in 1..Cur : z.g[x].cdl > z.now}})
  IN z' = [z EXCEPT !.now = @ + d, !.tleft = @ - d]
Stable == Quiet /\ z.tleft = 0

Internal == IGo \/ IDial \/ IReply \/ IStore \/ IStep \/ ILost \/ ITimeout \/ IBack \/ IClosing \/ ISend \/ IMainDown \/ IHandle \/ IHandled \/ IDisc
            \/ IDiscDone \/ IClock

-----------------------------------------------------------------------------
(* environment *)

ECall(c, op, a) == z' = [z EXCEPT !.calls = @ \cup {NewCall(c, op, a)}]
EFeed(g, ms) == z' = [z EXCEPT !.g[g].inq = @ \o ms]
EEnd(g) == z' = [z EXCEPT !.g[g].eof = TRUE]
EWrites(m) == z' = [z EXCEPT !.wmode = m]
EHoldData(b) == z' = [z EXCEPT !.holdd = b]
EHoldDisc(b) == z' = [z EXCEPT !.holdx = b]
ENest(n) == z' = [z EXCEPT !.nest = n]
ETick(d) == Stable /\ z' = [z EXCEPT !.tleft = d]
Observed == z' = [z EXCEPT !.reqs = <<>>, !.rets = {}, !.evs = [ok |-> 0, err |-> 0], !.h = <<>>]

\* everything of all connections must be gone
MustBeGone == z.calls = {} /\ \A g \in 1..Cur : z.g[g].hpc = "done"
MustBeClosed(g) == z.g[g].st = "disc" /\ InTime(g)
MayBeClosed(g) == z.g[g].st = "disc" \/ z.g[g].eof
=============================================================================
