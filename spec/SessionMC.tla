------------------------------ MODULE SessionMC ------------------------------
(* Exhaustive check of the design of Session: every interleaving of a few   *)
(* calls of the user, replies and media of the server, ends of the stream,  *)
(* faults of the transport and ticks of the clock.  Nothing is observed     *)
(* here, so z.reqs, z.rets, z.evs and z.h are the whole history.            *)
EXTENDS Session
CONSTANTS Ws, MaxPlay, MaxClose, MaxFeed, MaxTick, MaxCtl, Gates, Replies

VARIABLES b,     \* what the environment has spent, the next call id
          fed,   \* messages fed, in order: generation and message
          cr,    \* does the Play of generation g have credentials
          cl     \* calls of Close and the generation each met
mvars == <<z, b, fed, cr, cl>>

Rp(st, nt, sid, ch) == [k |-> "rep", st |-> st, nt |-> nt, sid |-> sid, ch |-> ch]
ReplySet == [ok1 |-> Rp(200, 1, 0, {}), ok2 |-> Rp(200, 2, 0, {}), sid |-> Rp(200, 1, 5, {}), sid2 |-> Rp(200, 1, 6, {}),
             none |-> Rp(200, 0, 0, {}),
             dig |-> Rp(401, 0, 0, {"digest"}), bas |-> Rp(401, 0, 0, {"basic"}), no |-> Rp(404, 0, 0, {}), bad |-> [k |-> "bad"],
             rtp |-> [k |-> "rtp", ch |-> 0, id |-> 0], junk |-> [k |-> "junk"]]

MInit == /\ z = ZInit0(0, Ws)
         /\ b = [play |-> 0, close |-> 0, feed |-> 0, tick |-> 0, ctl |-> 0, w |-> 0, hold |-> 0, nest |-> 0, c |-> 0]
         /\ fed = <<>> /\ cr = <<>> /\ cl = {}

Calling(op) == \E call \in z.calls : call.op = op
Earlier == \A g \in 1..Cur : z.g[g].hpc \in {"dcb", "done"}
Spend(f) == b' = [b EXCEPT ![f] = @ + 1]
SpendC(f) == b' = [b EXCEPT ![f] = @ + 1, !.c = @ + 1]
Creds == IF "cred" \in Gates THEN {TRUE, FALSE} ELSE {FALSE}

\* a nested call runs in place of the armed callback: which generation it meets is decided there
Env ==
  \/ /\ b.play < MaxPlay /\ ~Calling("play") /\ ~(z.nest.op = "play") /\ Earlier
     /\ \E c \in Creds : ECall(b.c + 1, "play", [cred |-> c]) /\ cr' = Append(cr, c)
     /\ SpendC("play") /\ UNCHANGED <<fed, cl>>
  \/ /\ b.close < MaxClose
     /\ ECall(b.c + 1, "close", [cred |-> FALSE])
     /\ SpendC("close") /\ UNCHANGED <<fed, cr, cl>>
  \/ /\ b.ctl < MaxCtl /\ Cur > 0 /\ ~Calling("play")
     /\ \E op \in {"pause", "wait"} : ECall(b.c + 1, op, [cred |-> FALSE])
     /\ SpendC("ctl") /\ UNCHANGED <<fed, cr, cl>>
  \/ /\ b.feed < MaxFeed /\ Cur > 0 /\ ~z.g[Cur].eof
     /\ \E r \in Replies :
          LET m == IF r = "rtp" THEN [ReplySet[r] EXCEPT !.id = b.feed + 1] ELSE ReplySet[r]
          IN EFeed(Cur, <<m>>) /\ fed' = Append(fed, [g |-> Cur, m |-> m])
     /\ Spend("feed") /\ UNCHANGED <<cr, cl>>
  \/ \E g \in 1..Cur : "end" \in Gates /\ ~z.g[g].eof /\ EEnd(g) /\ UNCHANGED <<b, fed, cr, cl>>
  \/ /\ "w" \in Gates /\ b.w < 2 /\ \E m \in {"ok", "stall", "fail"} : m # z.wmode /\ EWrites(m)
     /\ Spend("w") /\ UNCHANGED <<fed, cr, cl>>
  \/ /\ "hold" \in Gates /\ b.hold < 2 /\ (EHoldData(~z.holdd) \/ EHoldDisc(~z.holdx))
     /\ Spend("hold") /\ UNCHANGED <<fed, cr, cl>>
  \/ /\ "nest" \in Gates /\ b.nest < 1 /\ z.nest.on = ""
     /\ \E on \in {"data", "disc", "ok", "err"} : ENest([on |-> on, c |-> b.c + 1, op |-> "close", cred |-> FALSE])
     /\ SpendC("nest") /\ UNCHANGED <<fed, cr, cl>>
  \/ b.tick < MaxTick /\ z.calls # {} /\ ETick(ReplyTimeout) /\ Spend("tick") /\ UNCHANGED <<fed, cr, cl>>

\* the generation a Close meets: the current one when it starts
Closes == {call \in GoCalls : call.op = "close"}
Inner == /\ Internal /\ UNCHANGED <<b, fed, cr>>
         /\ cl' = cl \cup {[c |-> call.c, g |-> Cur] : call \in {x \in Closes : ~(\E y \in z'.calls : y.c = x.c /\ y.pc = "go")}}
MNext == Env \/ Inner
MSpec == MInit /\ [][MNext]_mvars
MLive == MSpec /\ WF_mvars(Inner)

-----------------------------------------------------------------------------
Of(g) == SelectSeq(z.reqs, LAMBDA r : r.g = g)
Hand(g) == SelectSeq(Of(g), LAMBDA r : r.m \notin {"TEARDOWN", "PAUSE"})
Count(q, Test(_)) == Cardinality({i \in 1..Len(q) : Test(q[i])})
FedTo(g) == {i \in 1..Len(fed) : fed[i].g = g}
RepFed(g, Test(_)) == Cardinality({i \in FedTo(g) : fed[i].m.k = "rep" /\ Test(fed[i].m)})

\* C02: what a Play sends: DESCRIBE (again with an authorization, when there are credentials), SETUP of the tracks in
\* their order, PLAY
GrammarOk(g) ==
  LET q == Hand(g)
      nd == Count(q, LAMBDA r : r.m = "DESCRIBE")
      ns == Count(q, LAMBDA r : r.m = "SETUP")
      np == Count(q, LAMBDA r : r.m = "PLAY")
  IN /\ nd <= 2 /\ np <= 1
     /\ nd = 2 => cr[g] /\ q[2].auth # "-"
     /\ \A i \in 1..Len(q) : q[i].m = (IF i <= nd THEN "DESCRIBE" ELSE IF i <= nd + ns THEN "SETUP" ELSE "PLAY")
     /\ \A i \in 1..ns : q[nd + i].u = "t" \o ToString(i) /\ q[nd + i].x = SetupX(i)
     /\ Len(q) > 0 /\ q[1].m = "DESCRIBE" => q[1].auth = "-"
Grammar == \A g \in 1..Cur : GrammarOk(g)
\* C02: nothing is sent before the answer to what was sent before (a Close after it gave up waiting comes last)
OneAtATime == \A g \in 1..Cur : Len(Of(g)) <= 1 + Cardinality({i \in FedTo(g) : fed[i].m.k \in {"rep", "bad"}}) + b.tick
\* C02, C17: CSeq grows with every request and by one from request to request of a connection that takes what is written
CSeqOk == \A i \in 1..(Len(z.reqs) - 1) :
  /\ z.reqs[i].cseq < z.reqs[i + 1].cseq
  /\ z.reqs[i].g = z.reqs[i + 1].g => z.reqs[i + 1].cseq = z.reqs[i].cseq + 1
\* C03: a call returns once; as many events as decided Plays
ReturnsOnce == \A x \in z.rets, y \in z.rets : x.c = y.c => x = y
NotBoth == \A x \in z.rets, call \in z.calls : x.c # call.c
Decided(r) == Cardinality({x \in z.rets : x.r = r /\ x.c \in {y.c : y \in z.rets}}) +
              Cardinality({call \in z.calls : call.pc = "cb" /\ call.res = r})
EventsOk == MaxCtl = 0 => (z.evs.ok = Decided("ok") /\ z.evs.err = Decided("err"))
\* C03: success takes a description, a SETUP and a PLAY that were answered with 200, and at least one track
OkNeedsReplies == MaxCtl = 0 =>
  (z.evs.ok > 0 => \E g \in 1..Cur : RepFed(g, LAMBDA m : m.st = 200) >= 3 /\ RepFed(g, LAMBDA m : m.nt > 0) >= 1)
\* C03, C17: nobody waits longer than the reply timeout
Bounded == \A call \in z.calls : call.pc = "wait" => (z.now <= call.dl /\ call.dl <= z.now + ReplyTimeout)
StableBounded == Stable => \A call \in z.calls : call.pc = "wait" => z.now < call.dl
\* C04: a session id is one the server of this connection assigned
SidOk == \A i \in 1..Len(z.reqs) : LET r == z.reqs[i] IN
  r.sid # 0 => RepFed(r.g, LAMBDA m : m.st = 200 /\ m.sid = r.sid) > 0
\* C05: an authorization is sent only with credentials, to a server that asked, with a scheme it offers
AuthOk == \A i \in 1..Len(z.reqs) : LET r == z.reqs[i] IN
  r.auth # "-" => cr[r.g] /\ RepFed(r.g, LAMBDA m : m.st = 401 /\ (IF r.auth = "D" THEN "digest" ELSE "basic") \in m.ch) > 0
\* C09: media is delivered at most once, in the order it came, only when it came
Name(i) == "d" \o ToString(fed[i].g) \o ":" \o ToString(fed[i].m.ch) \o ":" \o ToString(fed[i].m.id)
DataH == SelectSeq(z.h, LAMBDA x : ~(\E n \in 0..MaxPlay : x = "disc" \o ToString(n)))
DiscH == SelectSeq(z.h, LAMBDA x : \E n \in 0..MaxPlay : x = "disc" \o ToString(n))
PosOf(x) == CHOOSE i \in 1..Len(fed) : fed[i].m.k = "rtp" /\ Name(i) = x
MediaOk == \A i \in 1..Len(DataH) : /\ \E n \in 1..Len(fed) : fed[n].m.k = "rtp" /\ Name(n) = DataH[i]
                                    /\ \A h \in 1..(i - 1) : PosOf(DataH[h]) < PosOf(DataH[i])
\* C10: one disconnected event for each connection that went down, nothing of it afterwards
DiscOk == /\ Len(DiscH) = Cardinality({g \in 1..Cur : z.g[g].hpc \in {"dcb", "done"}})
          /\ \A i \in 1..Len(DiscH) : DiscH[i] = "disc" \o ToString(i)
          /\ \A i \in 1..Len(z.h) : \A n \in 1..Cur :
               z.h[i] = "disc" \o ToString(n) => \A j \in (i + 1)..Len(z.h) : \A p \in 1..Len(fed) :
                 (fed[p].m.k = "rtp" /\ Name(p) = z.h[j]) => fed[p].g > n
\* C10: Close ends the connection it met, once the transport lets it
ClosedOk == (Stable /\ z.wmode # "stall") => \A x \in cl : (\E y \in z.rets : y.c = x.c) /\ x.g > 0 => Down(z, x.g)
\* C10: a connection that is gone is torn down, nothing of it is left
GoneOk == (Stable /\ ~z.holdd /\ ~z.holdx) => \A g \in 1..Cur :
  (InTime(g) /\ (z.g[g].eof \/ z.g[g].lcl) /\ ~(\E call \in z.calls : call.g = g)) => z.g[g].hpc = "done" /\ z.g[g].sq = <<>>
NobodyStuck == (Stable /\ ~z.holdd /\ ~z.holdx) => \A call \in z.calls : call.g > 0 => z.g[call.g].hpc # "done"
\* everything settles
Settles == []<>Stable
\* reachable (expected to be violated: what the invariants above speak about happens)
NeverOk == z.evs.ok = 0
NeverTwice == \A g \in 1..Cur : Count(Of(g), LAMBDA r : r.m = "DESCRIBE") < 2
NeverSid == \A i \in 1..Len(z.reqs) : z.reqs[i].sid = 0
NeverTimedOut == ~(b.tick > 0 /\ z.evs.err > 0)
NeverTeardown == \A i \in 1..Len(z.reqs) : z.reqs[i].m # "TEARDOWN"
NeverData == Len(DataH) < 2
NeverPause == \A i \in 1..Len(z.reqs) : z.reqs[i].m # "PAUSE"
NeverSecond == ~(Len(DiscH) = 1 /\ Cur = 2 /\ Of(2) # <<>>)
=============================================================================
