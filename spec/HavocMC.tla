------------------------------- MODULE HavocMC -------------------------------
(* Session seen from outside is one of the clients Havoc allows: Havoc runs  *)
(* along with every behaviour of SessionMC (without nested and held          *)
(* callbacks, which Havoc does not know) and takes the steps it can see.     *)
EXTENDS SessionMC
VARIABLE hz
H == INSTANCE Havoc WITH z <- hz
hvars == <<mvars, hz>>

HMInit == MInit /\ H!HInit

\* what the environment does: the new connection is there with the call
Fed == z'.g # z.g /\ z' = [z EXCEPT !.g = z'.g]
NewCalls == z'.calls \ z.calls
Starting == \E call \in GoCalls : call.op = "play"
HEnv ==
  /\ Env
  /\ Starting => z'.g = z.g     \* bytes and ends come when Play has its connection
  /\ \A call \in NewCalls : call.op = "play" => z.calls = {}   \* as in HavocGen
  /\ IF NewCalls # {} THEN \E call \in NewCalls : H!ECall(call.c, call.op)
     ELSE IF \E g \in 1..Cur : z'.g[g].eof # z.g[g].eof
     THEN LET g == CHOOSE g \in 1..Cur : z'.g[g].eof # z.g[g].eof
          IN hz' = [hz EXCEPT !.g[g].eof = TRUE, !.g[g].last = hz.now]
     ELSE IF Fed THEN H!EFeed
     ELSE UNCHANGED hz
\* the client's steps that can be seen; the clock
NewRet == {x.c : x \in z'.rets \ z.rets}
NewH == SubSeq(z'.h, Len(z.h) + 1, Len(z'.h))
IsDisc(x) == \E n \in 1..MaxPlay : x = "disc" \o ToString(n)
HInner ==
  /\ Inner
  /\ hz' = [hz EXCEPT
       !.now = z'.now,
       !.calls = {call \in @ : call.c \notin NewRet},
       !.rets = @ \cup NewRet,
       !.evs = z'.evs.ok + z'.evs.err,
       !.h = @ \o [i \in 1..Len(NewH) |-> IF IsDisc(NewH[i]) THEN "disc" ELSE "data"],
       !.g = IF \E i \in 1..Len(NewH) : IsDisc(NewH[i]) THEN [@ EXCEPT ![Len(hz.g)].end = TRUE] ELSE @]
HMNext == HEnv \/ HInner
HMSpec == HMInit /\ [][HMNext]_hvars

\* the steps are steps of Havoc
Seen == [][Inner =>
  \/ hz' = [hz EXCEPT !.now = z'.now] /\ NewRet = {} /\ NewH = <<>> /\ hz'.evs = hz.evs
  \/ H!IReturn
  \/ NewH # <<>> /\ (IF IsDisc(NewH[1]) THEN H!IDisc
                     ELSE H!Live /\ hz' = [hz EXCEPT !.h = Append(@, "data")])]_hvars
\* and whenever nothing is left to do an observation would be accepted
Owes == Stable => ~H!Owed
Closing == Stable => \A g \in 1..Cur :
  (z.g[g].st = "disc") # hz.g[g].end => (g = Cur /\ hz.calls # {} /\ z.g[g].st = "disc")
Gone == (Stable /\ hz.calls = {} /\ ~H!Live) => \A g \in 1..Cur : z.g[g].hpc = "done" /\ ~z.g[g].main
=============================================================================
