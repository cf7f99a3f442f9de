------------------------------ MODULE HavocGen ------------------------------
(* Random behaviours of Havoc (tlc -simulate), printed as scripts.  How       *)
(* hostile bytes look is up to the harness, which knows what the client asked.*)
EXTENDS Havoc, Json
CONSTANTS Ws
VARIABLES hist, k, cs, q, fin
vars == <<z, hist, k, cs, q, fin>>
R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
P(n) == R(1..100) <= n /\ z.now >= 0

\* q: how many answers in turn are still proper
GInit == HInit /\ hist = <<>> /\ k \in {8, 14, 24} /\ cs = 0 /\ q = 0 /\ fin = FALSE
Hostile == <<"mutate", "mutate", "sdp", "sdp", "sdp", "challenge", "header", "status", "bytes", "frame", "rtp", "rtp", "rtp", "media", "cut", "flood">>
           \o (IF Ws THEN <<"ws", "ws">> ELSE <<>>)
Free == \A call \in z.calls : call.op = "close"
Feed == [a |-> "feed", what |-> IF q > 0 THEN "ok" ELSE IF P(25) THEN "ok" ELSE Pick(Hostile), n |-> R(1..3)]
Cands ==
  (IF ~Live /\ z.calls = {} THEN <<[a |-> "call", c |-> cs + 1, op |-> "play", cred |-> P(60)],
                                   [a |-> "call", c |-> cs + 1, op |-> "play", cred |-> P(60)]>> ELSE <<>>)
  \o (IF Live /\ ~z.g[Cur].eof THEN <<Feed, Feed, Feed, Feed>> \o (IF q = 0 /\ P(15) THEN <<[a |-> "end"]>> ELSE <<>>) ELSE <<>>)
  \o (IF Cur > 0 /\ Free THEN <<[a |-> "call", c |-> cs + 1, cred |-> FALSE,
        op |-> Pick(<<"describe", "setup", "startplay", "pause", "teardown", "wait", "wait">>)]>> ELSE <<>>)
  \o (IF P(10) THEN <<[a |-> "call", c |-> cs + 1, op |-> "close", cred |-> FALSE]>> ELSE <<>>)
  \o (IF P(30) THEN <<[a |-> "tick", d |-> Pick(<<1, 500, 1999, 2000, 2000, 5000>>)]>> ELSE <<>>)
GEnv == ~fin /\ Len(hist) < k /\ ~Owed /\ z.rets = {} /\ z.h = <<>> /\
  \E e \in {Pick(Cands \o <<[a |-> "none"]>>)} :
    IF e.a = "none" THEN UNCHANGED vars
    ELSE /\ CASE e.a = "call" -> ECall(e.c, e.op) [] e.a = "feed" -> EFeed [] e.a = "end" -> EEnd
              [] OTHER -> ETick(Step(e.d))
         /\ hist' = Append(hist, e)
         /\ cs' = IF e.a = "call" THEN e.c ELSE cs
         /\ q' = IF e.a = "call" /\ e.op = "play" THEN R(0..6) ELSE IF e.a = "feed" /\ q > 0 THEN q - 1 ELSE q
         /\ UNCHANGED <<k, fin>>
\* the client is taken to be well-behaved here: it returns when it has to, and sometimes before
GInt == ~fin /\ (Owed \/ P(4)) /\ Client /\ UNCHANGED <<hist, k, cs, q, fin>>
GObs == ~fin /\ (z.rets # {} \/ z.h # <<>>) /\ Observed /\ UNCHANGED <<hist, k, cs, q, fin>>
GFin == ~fin /\ Len(hist) >= k /\ PrintT("SCRIPT " \o ToJson([steps |-> hist])) /\ fin' = TRUE /\ UNCHANGED <<z, hist, k, cs, q>>
GSpec == GInit /\ [][GEnv \/ GInt \/ GObs \/ GFin]_vars
=============================================================================
