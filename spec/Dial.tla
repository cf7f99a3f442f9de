-------------------------------- MODULE Dial ---------------------------------
(* Where Play goes: the server and port its URL names, what it asks there,   *)
(* and what becomes of it when nobody answers.  Servers are at hosts and     *)
(* ports; the user plays URLs one after another, the server or the user ends *)
(* what was begun.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DefaultPort == 554
\* a URL: host (its written form), port (0: none given), user name and password ("none", "both", or only one of them),
\* path with query
Target(u) == [host |-> u.host, port |-> IF u.port = 0 THEN DefaultPort ELSE u.port]
\* the URL of the requests: as given, without user name and password
Wire(u) == [host |-> u.host, port |-> u.port, path |-> u.path]

VARIABLE d
(* d.at    the server the session is connected to, or None                    *)
(* d.on    playing (media is delivered)                                       *)
(* d.ev    request-success, request-error and disconnect events, media units  *)
(* d.log   connections the servers have seen, in their order                  *)
(* d.reqs  request URLs and whether a challenge was answered, of the last one *)
(* d.res   result of the last step                                            *)
None == [host |-> "", port |-> 0]
DInit == d = [at |-> None, on |-> FALSE, ev |-> [ok |-> 0, err |-> 0, disc |-> 0, data |-> 0], log |-> <<>>, res |-> ""]

Connected == d.at # None
\* what awaits the client there: "full" a proper server, "auth" one that asks for the password first, "no" one that refuses,
\* "bye" one that hangs up, "deaf" one that never answers, "none" nobody listens, "lost" the packets are lost
Behaviours == {"full", "auth", "no", "bye", "deaf", "none", "lost"}
Accepts == {"full", "auth", "no", "bye", "deaf"}
Bump(f, n) == [d EXCEPT !.ev[f] = @ + n]

Play(u, beh) ==
  IF Connected THEN d' = [d EXCEPT !.res = "err"]
  ELSE IF u.bad THEN d' = [d EXCEPT !.res = "err"]
  ELSE IF beh \notin Accepts THEN d' = [d EXCEPT !.res = "err", !.ev.disc = @ + 1]
  ELSE LET e == [d EXCEPT !.log = Append(@, [to |-> Target(u), url |-> Wire(u)])] IN
       CASE beh = "full" \/ (beh = "auth" /\ u.user = "both") -> d' = [e EXCEPT !.at = Target(u), !.on = TRUE, !.res = "ok", !.ev.ok = @ + 1]
         [] beh \in {"no", "auth"} -> d' = [e EXCEPT !.at = Target(u), !.on = FALSE, !.res = "err", !.ev.err = @ + 1]
         [] beh \in {"bye", "deaf"} -> d' = [e EXCEPT !.res = "err", !.ev.err = @ + 1, !.ev.disc = @ + 1]
Media(n) == Connected /\ d' = [Bump("data", IF d.on THEN n ELSE 0) EXCEPT !.res = ""]
Over == [d EXCEPT !.at = None, !.on = FALSE, !.res = "", !.ev.disc = @ + 1]
End == Connected /\ d' = Over
Close == d' = IF Connected THEN Over ELSE [d EXCEPT !.res = ""]

\* how long a Play may take, in seconds: [at least, about]
Slow(beh) == beh \in {"deaf", "lost"}
=============================================================================
