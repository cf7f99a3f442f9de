------------------------------ MODULE ConnGen -------------------------------
(* Random behaviours of Conn (tlc -simulate); their environment steps are    *)
(* printed as scripts for the harness.                                       *)
EXTENDS ConnSteps, Json
CONSTANT Profile   \* "send" | "events" : what the scripts concentrate on
VARIABLES hist, k, ids, cs, fin, drip   \* drip: the peer sends little by little
gvars == <<s, hist, k, ids, cs, fin, drip>>

R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]

GInit == /\ \E cap \in {0, 1, 2, 3, 4095}, rto \in (IF Profile = "silence" THEN {0, 1000, 2000, 5000} ELSE {0}) : s = Init0(cap, rto)
         /\ drip \in (IF Profile = "silence" THEN BOOLEAN ELSE {FALSE})
         /\ k \in {5, 8, 12, 18, 26}
         /\ hist = <<>> /\ ids = 0 /\ cs = 0 /\ fin = FALSE

\* candidate steps (each listed once per unit of weight)
Cands ==
  LET sends == << [a |-> "send", c |-> cs + 1, ids |-> <<ids + 1>>, copy |-> R({TRUE, FALSE})],
                  [a |-> "send", c |-> cs + 1, ids |-> <<ids + 1>>, copy |-> R({TRUE, FALSE})],
                  [a |-> "send", c |-> cs + 1, ids |-> [i \in 1..R(2..5) |-> ids + i], copy |-> R({TRUE, FALSE})] >>
      close == << [a |-> "close", c |-> cs + 1] >>
      feed  == << [a |-> "feed", n |-> 1, ph |-> 0], [a |-> "feed", n |-> R(1..4), ph |-> 0],
                  [a |-> "feed", n |-> 0, ph |-> IF s.ph = 2 THEN 2 ELSE R(s.ph..2)] >>
      \* the next part of the message
      step  == [a |-> "feed", n |-> IF s.ph = 2 THEN 1 ELSE 0, ph |-> (s.ph + 1) % 3]
      tick  == << [a |-> "tick", d |-> R(IF Profile = "silence" THEN {1, s.rto \div 2, 500, s.rto - 1, s.rto, s.rto + 1, 5000} \ {-1, 0} ELSE {1, 100, 4999, 5000, 5001, 2500})] >>
      gates == << [a |-> "writes", m |-> R({"ok", "stall", "stall"})], [a |-> "writes", m |-> "ok"],
                  [a |-> "hold", b |-> ~s.hold], [a |-> "hold", b |-> FALSE],
                  [a |-> "holdser", b |-> ~s.hser], [a |-> "holdclose", b |-> ~s.hclose] >>
      nasty == << [a |-> "end"], [a |-> "writes", m |-> "fail"], [a |-> "boom", x |-> R({"handler", "proto"})] >>
  IN IF Profile = "silence" /\ s.rpc \in {"gone", "edisc", "done"} /\ R(1..4) > 1 THEN << [a |-> "stop"] >> ELSE
     IF s.rpc = "none" THEN << [a |-> "run"], [a |-> "run"], [a |-> "run"], [a |-> "run"], [a |-> "hold", b |-> TRUE] >> \o (IF R(1..6) = 1 THEN sends \o close ELSE <<>>)
     ELSE IF drip /\ s.rpc = "read" /\ R(1..6) > 1
     THEN IF hist[Len(hist)].a = "tick" THEN << [a |-> "feed", n |-> 0, ph |-> s.ph], [a |-> "feed", n |-> 0, ph |-> s.ph], [a |-> "feed", n |-> 0, ph |-> s.ph], step >>
          ELSE << [a |-> "tick", d |-> IF s.rto = 0 THEN R({1, 2500, 5000}) ELSE R({s.rto \div 2, s.rto - 1, s.rto \div 3, s.rto \div 4})] >>
     ELSE (IF Profile = "send" THEN sends \o sends \o sends \o gates \o tick
           ELSE IF Profile = "silence"
           THEN feed \o <<step, step, step>> \o tick \o tick \o <<gates[1], gates[3], gates[4], sends[1]>>
           ELSE feed \o feed \o gates \o sends)
          \o (IF Profile = "silence" /\ R(1..4) > 1 THEN <<>> ELSE close) \o tick \o (IF s.rend THEN <<>> ELSE feed) \o (IF R(1..3) = 1 /\ ~s.rend THEN nasty ELSE <<>>)

Ok(e) == /\ e.a = "feed" => ~s.rend
         /\ e.a = "tick" => Stable
         /\ e.a = "run" => s.rpc = "none"
         /\ e.a = "writes" => s.wmode # "fail"
         /\ e.a = "send" => Cardinality(s.calls) < 4 /\ \A call \in s.calls : Len(call.rest) < 4

Nw == [i \in 1..Len(hist) |-> IF i = Len(hist) THEN hist[i] @@ ("nw" :> TRUE) ELSE hist[i]]

GEnv ==
  /\ ~fin /\ Len(hist) < k
  /\ Stable \/ (R(1..5) = 1 /\ Cardinality({i \in (IF Len(hist) > 3 THEN Len(hist) - 3 ELSE 1)..Len(hist) : "nw" \in DOMAIN hist[i]}) < 3)
  /\ \E e \in {Pick(Cands)} :
       IF e.a # "stop" /\ Ok(e)
       THEN /\ Apply(e)
            /\ hist' = Append(IF Stable THEN hist ELSE Nw, e)
            /\ ids' = IF e.a = "send" THEN e.ids[Len(e.ids)] ELSE ids
            /\ cs' = IF e.a \in {"send", "close"} THEN e.c ELSE cs
       ELSE UNCHANGED <<s, hist, ids, cs>>
  /\ UNCHANGED <<k, fin, drip>>
\* keeps the number of pending calls near what it will be in the code, where the sender starts
\* after the connected event was handled
GInt == ~fin /\ Internal /\ (s.rpc = "econn" => s'.spc = s.spc) /\ UNCHANGED <<hist, k, ids, cs, fin, drip>>
GFin == /\ ~fin /\ Len(hist) >= k /\ Stable
        /\ PrintT("SCRIPT " \o ToJson([cap |-> s.cap, rto |-> s.rto, steps |-> hist]))
        /\ fin' = TRUE /\ UNCHANGED <<s, hist, k, ids, cs, drip>>
GNext == GEnv \/ GInt \/ GFin
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
