----------------------------- MODULE SessionGen -----------------------------
(* Random behaviours of Session (tlc -simulate): users, servers and faults.  *)
(* Their environment steps are printed as scripts for the harness.           *)
EXTENDS SessionSteps, Json
CONSTANTS Profile,  \* "hand" | "auth" | "life" | "ctl" | "media": what the scripts concentrate on
          Ws,       \* over WebSockets
          OkPct     \* percentage of successful replies
VARIABLES hist, k, cs, ids, ans, nwl, fin
gvars == <<z, hist, k, cs, ids, ans, nwl, fin>>

R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]
The(S) == CHOOSE x \in S : TRUE
P(n) == R(1..100) <= n /\ z.now >= 0          \* (depends on the state: not evaluated once and for all)

GInit == /\ z = ZInit0(0, Ws)
         /\ k \in {6, 10, 14, 20, 28}
         /\ hist = <<>> /\ cs = 0 /\ ids = 0 /\ ans = 0 /\ nwl = 0 /\ fin = FALSE

Plays == {call \in z.calls : call.op = "play" /\ call.pc = "wait"}
Pend == Len(z.reqs) > ans /\ Cur > 0 /\ z.reqs[Len(z.reqs)].g = Cur /\ ~z.g[Cur].eof /\ ~z.g[Cur].lcl
InPlay == Plays # {}
Stage == IF InPlay THEN The(Plays).k ELSE ""

\* a reply with status st
MkRep(st) ==
  [k |-> "rep", st |-> st,
   nt |-> IF Stage \in {"d1", "d2"} /\ st = 200 THEN Pick(<<1, 1, 2, 2, 2, 3, 3, 4, 5, IF P(50) THEN 0 ELSE 2>>) ELSE 0,
   sid |-> IF st # 200 THEN 0 ELSE
           CASE Stage = "s" -> IF z.sid = 0 THEN Pick(<<Cur, Cur, Cur, Cur, 0>>)
                               ELSE Pick(<<z.sid, z.sid, z.sid, 0, IF P(20) THEN z.sid + 10 ELSE z.sid>>)
             [] OTHER -> Pick(<<0, z.sid>>),
   ch |-> IF st # 401 THEN <<>>
          ELSE IF Stage = "d1" /\ z.cred
               THEN Pick(<< <<"basic">>, <<"digest">>, <<"digest">>, <<"basic", "digest">>, <<"digest", "basic">>,
                           Pick(<< <<"other">>, <<"other", "digest">>, <<"digest", "other">>, <<"digest", "other">>, <<"other", "basic">>, <<"other", "digest", "basic">> >>) >>)
               ELSE Pick(<< <<>>, <<"basic">>, <<"digest">>, <<"basic", "digest">> >>)]
RandSt ==
  IF Stage = "d1" /\ P(IF Profile = "auth" THEN 70 ELSE IF z.cred THEN 35 ELSE 10) THEN 401
  ELSE IF P(OkPct) THEN 200 ELSE Pick(<<401, 404, 404, 500, 454, 301, 403, 201, 551>>)
Rep == The({MkRep(st) : st \in {RandSt}})
BadRep == [k |-> "bad"]
Unsol == The({[k |-> "rep", st |-> st, nt |-> 0, sid |-> Pick(<<0, 7>>), ch |-> <<>>] : st \in {Pick(<<200, 200, 404, 500>>)}})
Junk == [k |-> "junk"]
\* media of the tracks, the i-th of this step
Rtp(i) == IF Len(z.tr) = 0 THEN Junk ELSE [k |-> "rtp", ch |-> 2 * (R(1..Len(z.tr)) - 1), id |-> ids + i]
Media(n, off) == [i \in 1..n |-> IF P(70) THEN Rtp(off + i) ELSE Junk]
MaybeMedia(pct, off) == IF P(pct) THEN Media(R(1..3), off) ELSE <<>>
NIds(ms) == Cardinality({i \in 1..Len(ms) : ms[i].k = "rtp"})

MP == IF Profile = "media" THEN 60 ELSE 15
Answer == IF z.nest.on = "data" THEN <<Rep>>
          ELSE MaybeMedia(MP, 0) \o <<IF P(IF OkPct > 90 THEN 2 ELSE 6) THEN BadRep ELSE Rep>> \o MaybeMedia(MP, 3)
               \o (IF P(6) THEN <<Unsol>> ELSE <<>>)
Stream == Media(R(1..4), 0) \o (IF P(20) /\ z.nest.on # "data" THEN <<IF P(70) THEN Unsol ELSE BadRep>> ELSE <<>>) \o MaybeMedia(50, 4)

FeedOk == Cur > 0 /\ ~z.g[Cur].eof
Feed(ms) == [a |-> "feed", g |-> Cur, msgs |-> ms]
Call(op, arg) == [a |-> "call", c |-> cs + 1, op |-> op, arg |-> arg]
NoArg == [cred |-> FALSE]
Ctl == Pick(<<Call("describe", NoArg), Call("pause", NoArg), Call("pause", NoArg), Call("teardown", NoArg),
              Call("setup", [x |-> Pick(<<"0-1", "4-5", "10-11", "98-99">>)]),
              Call("startplay", [start |-> Pick(<<0, 0, 1, 5, 30, 3600, 100000>>), speed |-> Pick(<<1, 1, 2, 4, 0, -2>>)])>>)
MayPlay == Stable /\ z.calls = {} /\ \A g \in 1..Cur : z.g[g].hpc \in {"dcb", "done"}
\* the user hands over a new connection while the one before is still there
MayReplace == ~Ws /\ Stable /\ z.calls = {} /\ Cur > 0 /\ Cur < 6 /\ ~MayPlay /\ z.nest.op # "play" /\ z.nest.on # "data"
              /\ \A g \in 1..Cur : z.g[g].hpc # "cb" /\ z.g[g].inq = <<>>
Undone == {g \in 1..Cur : z.g[g].hpc # "done"}
Earlier == \A g \in 1..(Cur - 1) : z.g[g].hpc \in {"dcb", "done"}
Open == {g \in 1..Cur : ~z.g[g].eof}
Up == Cur > 0 /\ z.g[Cur].st = "conn" /\ ~z.g[Cur].eof /\ ~z.g[Cur].lcl
Free == \A call \in z.calls : call.op = "close"
Credo == P(IF Profile = "auth" THEN 75 ELSE 35)

Rept(n, q) == IF n <= 0 THEN <<>> ELSE IF n = 1 THEN q ELSE IF n = 2 THEN q \o q ELSE q \o q \o q
Cands ==
  (IF (MayPlay \/ (Up /\ Stable /\ z.calls = {} /\ Earlier)) /\ P(IF MayPlay THEN 25 ELSE 8) THEN <<Call("badplay", [cred |-> FALSE, slow |-> Ws /\ P(30)])>> ELSE <<>>) \o
  (IF MayPlay THEN Rept(3, <<Call("play", [cred |-> Credo])>>) ELSE <<>>)
  \o (IF MayReplace /\ P(IF Profile = "life" THEN 12 ELSE 4) THEN <<Call("play", [cred |-> Credo, re |-> TRUE])>> ELSE <<>>)
  \o (IF Pend /\ FeedOk THEN Rept(IF Profile = "life" THEN 2 ELSE 3, <<Feed(Answer), Feed(Answer)>>) ELSE <<>>)
  \o (IF FeedOk /\ ~Pend /\ Len(z.tr) > 0 THEN Rept(IF Profile = "media" THEN 3 ELSE 1, <<Feed(Stream)>>) ELSE <<>>)
  \o (IF Up /\ Free /\ Stable THEN Rept(IF Profile = "ctl" THEN 3 ELSE 1, <<Ctl>>) ELSE <<>>)
  \o (IF Cur > 0 /\ Free /\ Stable /\ ~z.idle THEN Rept(IF Profile = "ctl" THEN 3 ELSE 1, <<Call("wait", NoArg)>>) ELSE <<>>)
  \o (IF Cur = 0 /\ Stable /\ z.calls = {} /\ P(IF Profile = "ctl" THEN 30 ELSE 4) THEN <<Ctl, Call("wait", NoArg)>> ELSE <<>>)
  \o (IF Stable /\ Cardinality(z.calls) < 3 /\ (P(IF Profile = "life" THEN 50 ELSE 12) \/ (Cur = 0 /\ P(20)))
      THEN <<Call("close", NoArg)>> ELSE <<>>)
  \o (IF Cur > 0 /\ P(IF Profile = "life" THEN 40 ELSE 10) THEN <<[a |-> "end", g |-> IF Open # {} THEN R(Open) ELSE Cur]>> ELSE <<>>)
  \o (IF Stable /\ P(IF Profile = "life" THEN 60 ELSE 25)
      THEN <<[a |-> "tick", d |-> Pick(<<1, 100, 1000, 1999, 2000, 2001, 2000, 5000>>)]>> ELSE <<>>)
  \o (IF Profile = "life" \/ P(15)
      THEN <<[a |-> "holdd", b |-> ~z.holdd], [a |-> "holdd", b |-> FALSE], [a |-> "holdx", b |-> ~z.holdx],
             [a |-> "writes", m |-> Pick(<<"ok", "ok", "stall", IF P(30) THEN "fail" ELSE "ok">>)]>> ELSE <<>>)
  \o (IF z.nest.on = "" /\ Stable /\ P(IF Profile = "life" THEN 50 ELSE 15)
      THEN <<The({[a |-> "nest", on |-> on, c |-> cs + 1, cred |-> Credo,
                   op |-> CASE on = "disc" -> IF Cardinality(Undone) > 1 THEN "close" ELSE Pick(<<"play", "play", "play", "close">>)
                            [] on = "ok" -> Pick(<<"close", "pause", "describe", "teardown">>)
                            [] OTHER -> "close"] : on \in {Pick(<<"disc", "disc", IF z.calls = {} THEN "data" ELSE "disc", "ok", "err">>)}})>>
      ELSE <<>>)
  \o (IF z.wmode # "ok" /\ P(50) THEN <<[a |-> "writes", m |-> "ok"]>> ELSE <<>>)
  \o (IF (z.holdd \/ z.holdx) /\ P(30) THEN <<[a |-> "holdd", b |-> FALSE], [a |-> "holdx", b |-> FALSE]>> ELSE <<>>)

\* a nested Play must not meet a session that is busy, an armed callback no second one
Ok(e) == /\ e.a = "writes" => e.m # z.wmode
         /\ e.a = "holdd" => e.b # z.holdd
         /\ e.a = "holdx" => e.b # z.holdx
         /\ (e.a = "call" /\ e.op = "play") => ~(z.nest.on = "disc" /\ z.nest.op = "play" /\ z.g # <<>> /\ z.g[Cur].hpc # "done")
         /\ (e.a = "feed" /\ z.nest.on = "data") => \A i \in 1..Len(e.msgs) : e.msgs[i].k \notin {"rep", "bad"}
         /\ (e.a = "feed" /\ e.msgs = <<>>) => FALSE
\* the next step may follow before everything has settled
NwOk(e) == \/ e.a \in {"feed", "end", "holdd", "holdx", "writes"}
           \/ e.a = "call" /\ e.op = "close"
Marked == [i \in 1..Len(hist) |-> IF i = Len(hist) THEN hist[i] @@ ("nw" :> TRUE) ELSE hist[i]]
RepIn(ms) == \E i \in 1..Len(ms) : ms[i].k \in {"rep", "bad"}

GEnv ==
  /\ ~fin /\ Len(hist) < k
  /\ Stable \/ (nwl < 3 /\ Len(hist) > 0 /\ NwOk(hist[Len(hist)]) /\ P(6))
  /\ \E e \in {Pick(Cands \o << [a |-> "none"] >>)} :
       IF e.a # "none" /\ Ok(e) /\ (Stable \/ e.a \in {"feed", "end", "holdd", "holdx", "writes"})
       THEN /\ Apply(e)
            /\ hist' = Append(IF Stable THEN hist ELSE Marked, e)
            /\ nwl' = IF Stable THEN nwl ELSE nwl + 1
            /\ cs' = IF e.a = "nest" \/ e.a = "call" THEN e.c ELSE cs
            /\ ids' = IF e.a = "feed" THEN ids + 10 ELSE ids
            /\ ans' = IF e.a = "feed" /\ RepIn(e.msgs) THEN Len(z.reqs) ELSE ans
       ELSE UNCHANGED <<z, hist, nwl, cs, ids, ans>>
  /\ UNCHANGED <<k, fin>>
GInt == ~fin /\ Internal /\ UNCHANGED <<hist, k, cs, ids, ans, nwl, fin>>
GFin == /\ ~fin /\ Len(hist) >= k /\ Stable
        /\ PrintT("SCRIPT " \o ToJson([steps |-> hist]))
        /\ fin' = TRUE /\ UNCHANGED <<z, hist, k, cs, ids, ans, nwl>>
GNext == GEnv \/ GInt \/ GFin
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
