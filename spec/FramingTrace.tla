---------------------------- MODULE FramingTrace ----------------------------
(* Accepts the recorded executions that are behaviours of Framing.          *)
EXTENDS Framing, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug == IOEnv.VDEBUG = "1"
VARIABLES tid, l

Lines == Traces[tid].lines
Line == Lines[l]
IsObs == l <= Len(Lines) /\ Line.a = "obs"
IsEnv == l <= Len(Lines) /\ Line.a # "obs"

Bad(o) == {g \in {"delivered", "disc"} :
             CASE g = "delivered" -> o.out # f.out [] g = "disc" -> o.disc # f.disc}

TInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ f = FInit0(Traces[t].msgs)
TInternal == FInternal /\ UNCHANGED <<tid, l>>
TEnv == IsEnv /\ (IF Line.a = "feed" THEN FArrive(Line.n) ELSE Line.a = "close" /\ FClose) /\ l' = l + 1 /\ UNCHANGED tid
TObs == IsObs /\ FStable /\ Bad(Line) = {} /\ FObserved /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TInternal \/ TEnv \/ TObs]_<<f, tid, l>>

Report ==
  /\ (Debug /\ IsObs /\ FStable /\ Bad(Line) # {}) => PrintT(<<"MISMATCH", l, Bad(Line), [f EXCEPT !.msgs = <<>>]>>)
  /\ Debug => PrintT(<<"AT", l>>)
  /\ IF l > Len(Lines) THEN PrintT(<<"DONE", tid>>) /\ FALSE ELSE TRUE
=============================================================================
