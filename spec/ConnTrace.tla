----------------------------- MODULE ConnTrace ------------------------------
(* Accepts the recorded executions that are behaviours of Conn.             *)
EXTENDS ConnSteps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug == IOEnv.VDEBUG = "1"
VARIABLES tid, l

Lines == Traces[tid].lines
Line == Lines[l]
IsObs == l <= Len(Lines) /\ Line.a = "obs"
IsEnv == l <= Len(Lines) /\ Line.a # "obs"

\* what differs between the observation o and the state, by group
Bad(o) ==
  {g \in {"events", "status", "closed", "returns", "written", "leak"} :
    CASE g = "events"  -> o.ev # s.ev
      [] g = "status"  -> o.st # StatusNum
      [] g = "closed"  -> o.closed # (s.sock = "closed")
      [] g = "returns" -> {o.ret[i] : i \in 1..Len(o.ret)} # s.ret
      [] g = "written" -> o.wr # s.wr \/ ~(o.tail = 0 \/ (s.item # 0 /\ o.tail \in {-9, s.item}))
      [] g = "leak"    -> MustBeGone /\ o.leak # 0}

\* Pruning (sound: it only drops states that cannot lead to the end of this trace).  The trace
\* comes with w, the ids of all messages of the trace that were written, in order, and each
\* line with off, how many of them were observed before it; ids that were never written are
\* all called -1.  What was written or queued must begin like w.
Named(q) == SelectSeq(q, LAMBDA x : x > 0)
Compatible ==
  LET w == Traces[tid].w
      off == IF l <= Len(Lines) THEN Lines[l].off ELSE 0
      h == s.wr \o Named((IF s.item # 0 THEN <<s.item>> ELSE <<>>) \o s.q)
  IN (\A i \in 1..Len(s.wr) : s.wr[i] # -1) /\ (l > Len(Lines) \/ off + Len(h) <= Len(w)) /\ (l > Len(Lines) \/ \A i \in 1..Len(h) : w[off + i] = h[i])
\* these internal steps commute with all others: taken first, one at a time
EagerCalls == {call \in s.calls : gReturn(call) \/ (s.st = "disc" /\ (gRefuse(call) \/ gExpire(call))) \/ gGone(call)}
Eager == EagerCalls # {}
TEager == LET call == CHOOSE x \in EagerCalls : \A y \in EagerCalls : x.c <= y.c
          IN s' = IF gReturn(call) THEN [s EXCEPT !.calls = @ \ {call}, !.ret = @ \cup {call.c}] ELSE Upd(call, Skip(call))

TInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ s = Init0(Traces[t].cap, Traces[t].rto)
TInternal == /\ IF Eager THEN TEager ELSE Internal
             /\ UNCHANGED <<tid, l>>
TEnv == ~Eager /\ IsEnv /\ Apply(Line) /\ l' = l + 1 /\ UNCHANGED tid
TObs == IsObs /\ Stable /\ Bad(Line) = {} /\ Observed /\ l' = l + 1 /\ UNCHANGED tid
TNext == TInternal \/ TEnv \/ TObs
TSpec == TInit /\ [][TNext]_<<s, tid, l>>

Report ==
  /\ Compatible
  /\ (Debug /\ IsObs /\ Stable /\ Bad(Line) # {}) => PrintT(<<"MISMATCH", l, Bad(Line), s>>)
  /\ Debug => PrintT(<<"AT", l>>)
  /\ IF l > Len(Lines) THEN PrintT(<<"DONE", tid>>) /\ FALSE ELSE TRUE
=============================================================================
