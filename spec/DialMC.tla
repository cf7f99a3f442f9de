------------------------------- MODULE DialMC --------------------------------
(* Every short history of Dial.                                              *)
EXTENDS Dial
CONSTANT MaxSteps
VARIABLES n, plays     \* steps, and what the Plays were
Urls == [host : {"a"}, port : {0, 8554}, user : {"none", "both"}, path : {"/x"}, bad : BOOLEAN]
Init == DInit /\ n = 0 /\ plays = <<>>
Next == n < MaxSteps /\ n' = n + 1 /\
  \/ \E u \in Urls, beh \in Behaviours : Play(u, beh) /\ plays' = Append(plays, [u |-> u, beh |-> beh, was |-> Connected, res |-> d'.res])
  \/ (Media(1) \/ End \/ Close) /\ UNCHANGED plays
Spec == Init /\ [][Next]_<<d, n, plays>>
Num(P(_)) == Cardinality({i \in 1..Len(plays) : P(plays[i])})
Tried(p) == ~p.was /\ ~p.u.bad
\* every Play that had a connection is reported by one request event
OneResult == d.ev.ok + d.ev.err = Num(LAMBDA p : Tried(p) /\ p.beh \in Accepts)
\* every Play that was tried ends in one disconnect event
OneEnd == d.ev.disc + (IF Connected THEN 1 ELSE 0) = Num(Tried)
\* it goes where the URL says, with the port of RTSP if it says none; the URL is asked for without the password
Where == /\ Len(d.log) = Num(LAMBDA p : Tried(p) /\ p.beh \in Accepts)
         /\ \A i \in 1..Len(d.log) : d.log[i].to.port = (IF d.log[i].url.port = 0 THEN 554 ELSE d.log[i].url.port) /\ d.log[i].to.host = d.log[i].url.host
Success == d.ev.ok = Num(LAMBDA p : p.res = "ok")
Data == d.on => Connected
=============================================================================
