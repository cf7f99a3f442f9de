------------------------------- MODULE DialGen -------------------------------
(* Random histories of Dial, printed with what is to be seen after each step.*)
EXTENDS Dial, Json
CONSTANTS SlowPct     \* how often a server that lets the client wait
VARIABLES hist, k, fin
gvars == <<d, hist, k, fin>>
R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
P(n) == R(1..100) <= n /\ Len(hist) >= 0

Hosts(x) == Pick(<<"v4a", "v4a", "v4b", "v6", "name">>)
Ports(x) == Pick(<<0, 0, 0, 1, 2, 554>>)     \* 1, 2: some other port
Paths(x) == Pick(<<"", "/", "/live", "/live/ch1", "/a/b/c.sdp", "/h264?channel=1&subtype=0", "/p%20q?x=%2F&y", "/~v$1,2;p=3", "/x?", "/x?u=a:b@c", "?only=query">>)
Partial(x) == Pick(<<"name", "nopass", "pass", "empty">>)   \* name@, name:@, :password@, @
Url(x) == [host |-> Hosts(x), port |-> Ports(x), user |-> Pick(<<"none", "none", "none", "both", "both", Partial(x)>>), path |-> Paths(x), bad |-> P(6)]
Beh(x) == IF P(SlowPct) THEN Pick(<<"deaf", "lost">>) ELSE Pick(<<"full", "full", "full", "auth", "auth", "no", "bye", "none">>)

\* whether a challenge is answered with one part of the credentials is left open
BehFor(u) == LET b == Beh(u) IN IF b = "auth" /\ u.user \notin {"none", "both"} THEN "full" ELSE b

GInit == DInit /\ hist = <<>> /\ k \in {3, 5, 8} /\ fin = FALSE
Note(e) == hist' = Append(hist, e @@ [want |-> [res |-> d'.res, ev |-> d'.ev, conns |-> Len(d'.log), at |-> d'.at,
                                                 log |-> IF Len(d'.log) > Len(d.log) THEN <<d'.log[Len(d'.log)]>> ELSE <<>>]])
GStep == ~fin /\ Len(hist) < k /\ UNCHANGED <<k, fin>> /\
  \E what \in {IF Connected THEN Pick(<<"play", "media", "media", "end", "close">>) ELSE Pick(<<"play", "play", "play", "play", "close">>)} :
    CASE what = "play"  -> \E u \in {Url(hist)} : \E beh \in {BehFor(u)} : Play(u, beh) /\ Note([a |-> "play", u |-> u, beh |-> beh])
      [] what = "media" -> \E n \in {R(1..4)} : Media(n) /\ Note([a |-> "media", n |-> n])
      [] what = "end"   -> End /\ Note([a |-> "end"])
      [] OTHER          -> Close /\ Note([a |-> "close"])
GFin == ~fin /\ Len(hist) >= k /\ PrintT("SCRIPT " \o ToJson([steps |-> hist])) /\ fin' = TRUE /\ UNCHANGED <<d, hist, k>>
GSpec == GInit /\ [][GStep \/ GFin]_gvars
=============================================================================
