----------------------------- MODULE HavocTrace -----------------------------
(* Accepts the recorded executions that are behaviours of Havoc.  What an     *)
(* observation reports determines the client's steps since the last one.      *)
EXTENDS Havoc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug == IOEnv.VDEBUG = "1"
VARIABLES tid, l
Lines == Traces[tid].lines
Line == Lines[l]
ToSet(q) == {q[i] : i \in 1..Len(q)}
IsObs == l <= Len(Lines) /\ Line.a = "obs"

\* the client's steps the observation reports: returns in any order, callbacks in theirs
TReturn(o) == \E call \in z.calls : call.c \in ToSet(o.rets) /\
  z' = [z EXCEPT !.calls = @ \ {call}, !.rets = @ \cup {call.c}, !.evs = IF call.op = "play" THEN @ + 1 ELSE @]
Rest(o) == SubSeq(o.h, Len(z.h) + 1, Len(o.h))
TCall(o) == Rest(o) # <<>> /\
  IF Rest(o)[1] = "data" THEN Live /\ z' = [z EXCEPT !.h = Append(@, "data")]
  ELSE Rest(o)[1] = "disc" /\ IDisc
Returned(o) == \A call \in z.calls : call.c \notin ToSet(o.rets)
Bad(o) ==
  {b \in {"rets", "events", "callbacks", "late", "disc", "closed", "leak"} :
    CASE b = "rets"      -> ToSet(o.rets) # z.rets
      [] b = "events"    -> o.evs # z.evs
      [] b = "callbacks" -> Rest(o) # <<>>
      [] b = "late"      -> \E call \in z.calls : Late(call)
      [] b = "disc"      -> Live /\ z.g[Cur].eof
      \* a connection the client has closed is reported
      [] b = "closed"    -> \E g \in 1..Cur : o.closed[g] # z.g[g].end /\ ~(g = Cur /\ z.calls # {} /\ o.closed[g])
      [] b = "leak"      -> z.calls = {} /\ ~Live /\ o.leak # 0}

TInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ HInit
TEnv == ~IsObs /\ l <= Len(Lines) /\ l' = l + 1 /\ UNCHANGED tid /\
  CASE Line.a = "call" -> ECall(Line.c, Line.op)
    [] Line.a = "feed" -> EFeed
    [] Line.a = "end"  -> EEnd
    [] Line.a = "tick" -> ETick(Line.d)
TInt == IsObs /\ (IF ~Returned(Line) THEN TReturn(Line) ELSE TCall(Line)) /\ UNCHANGED <<tid, l>>
TObs == IsObs /\ Returned(Line) /\ Bad(Line) = {} /\ Observed /\ l' = l + 1 /\ UNCHANGED <<tid>>
TSpec == TInit /\ [][TEnv \/ TInt \/ TObs]_<<z, tid, l>>
Report ==
  /\ (Debug /\ IsObs /\ Returned(Line) /\ Bad(Line) # {}) => PrintT(<<"MISMATCH", l, Bad(Line), z>>)
  /\ Debug => PrintT(<<"AT", l>>)
  /\ IF l > Len(Lines) THEN PrintT(<<"DONE", tid>>) /\ FALSE ELSE TRUE
=============================================================================
