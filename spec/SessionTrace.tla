---------------------------- MODULE SessionTrace ----------------------------
(* Accepts the recorded executions that are behaviours of Session.          *)
EXTENDS SessionSteps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug == IOEnv.VDEBUG = "1"
VARIABLES tid, l

Lines == Traces[tid].lines
Line == Lines[l]
IsObs == l <= Len(Lines) /\ Line.a = "obs"
IsEnv == l <= Len(Lines) /\ Line.a # "obs"

Seqs(q) == [i \in 1..Len(q) |-> [g |-> q[i].g, m |-> q[i].m, u |-> q[i].u]]
Chs(q) == [i \in 1..Len(q) |-> IF q[i].m = "SETUP" THEN q[i].x ELSE ""]
Hdrs(q) == [i \in 1..Len(q) |-> q[i].x]
Fld(q, f) == [i \in 1..Len(q) |-> q[i][f]]
NDescribe(q) == Cardinality({i \in 1..Len(q) : q[i].m = "DESCRIBE"})
PlayCall(c) == c \in ToSet(Traces[tid].plays)
RetSet(o) == {[c |-> o.rets[i].c, r |-> o.rets[i].r] : i \in 1..Len(o.rets)}
Discs(q) == SelectSeq(q, LAMBDA x : x \in {"disc0", "no disconnect event", "disc1", "disc2", "disc3", "disc4", "disc5", "disc6", "disc7", "disc8"})

Bad(o) ==
  {g \in {"seq", "retry", "cseq", "sid", "auth", "chan", "hdr", "result", "ctl", "media", "disc", "closed", "leak"} :
    CASE g = "seq"    -> Seqs(o.reqs) # Seqs(z.reqs)
      [] g = "retry"  -> NDescribe(o.reqs) # NDescribe(z.reqs)
      [] g = "cseq"   -> Len(o.reqs) = Len(z.reqs) /\ Fld(o.reqs, "cseq") # Fld(z.reqs, "cseq")
      [] g = "sid"    -> Len(o.reqs) = Len(z.reqs) /\ \E i \in 1..Len(o.reqs) :
                            \* a DESCRIBE belongs to no session: it may carry the id or not
                            o.reqs[i].sid # z.reqs[i].sid /\ ~(o.reqs[i].m = "DESCRIBE" /\ o.reqs[i].sid = 0)
      [] g = "auth"   -> \/ Len(o.reqs) = Len(z.reqs) /\ Fld(o.reqs, "auth") # Fld(z.reqs, "auth")
                         \/ \E i \in 1..Len(o.reqs) : o.reqs[i].leaks
      [] g = "chan"   -> Len(o.reqs) = Len(z.reqs) /\ Chs(o.reqs) # Chs(z.reqs)
      [] g = "hdr"    -> Len(o.reqs) = Len(z.reqs) /\ Hdrs(o.reqs) # Hdrs(z.reqs)
      [] g = "result" -> \/ {x \in RetSet(o) : PlayCall(x.c)} # {x \in z.rets : PlayCall(x.c)}
                         \/ o.evs.ok # z.evs.ok \/ o.evs.err # z.evs.err
      [] g = "ctl"    -> {x \in RetSet(o) : ~PlayCall(x.c)} # {x \in z.rets : ~PlayCall(x.c)}
      [] g = "media"  -> o.h # z.h
      [] g = "disc"   -> Discs(o.h) # Discs(z.h)
      [] g = "closed" -> \E g2 \in 1..Cur : \/ MustBeClosed(g2) /\ ~o.closed[g2]
                                            \/ o.closed[g2] /\ ~MayBeClosed(g2)
      [] g = "leak"   -> MustBeGone /\ o.leak # 0}

\* Pruning (sound: it only drops states that cannot lead past the next observation): what has
\* become observable since the last one begins like it.  Switched off from observation `from' on,
\* to find out what differs.
NextObs == CHOOSE i \in l..Len(Lines) : Lines[i].a = "obs" /\ \A j \in l..(i - 1) : Lines[j].a # "obs"
SameReq(a, b) == a.g = b.g /\ a.m = b.m /\ a.u = b.u /\ a.cseq = b.cseq /\ a.auth = b.auth /\ a.x = b.x
                 /\ (a.sid = b.sid \/ (a.m = "DESCRIBE" /\ a.sid = 0))
Begins(o) ==
  /\ Len(z.reqs) <= Len(o.reqs) /\ \A i \in 1..Len(z.reqs) : SameReq(o.reqs[i], z.reqs[i])
  /\ Len(z.h) <= Len(o.h) /\ \A i \in 1..Len(z.h) : o.h[i] = z.h[i]
  /\ z.evs.ok <= o.evs.ok /\ z.evs.err <= o.evs.err
  /\ z.rets \subseteq RetSet(o)
Compatible == l > Len(Lines) \/ NextObs >= Traces[tid].from \/ Begins(Lines[NextObs])
\* these internal steps commute with all others: taken first when nothing but internal steps comes
EagerG == IF IsObs THEN {g \in 1..Cur : gHandled(g) \/ gDiscDone(g) \/ (gHandle(g) /\ Head(z.g[g].inq).k = "junk")} ELSE {}
TEager == LET g == CHOOSE x \in EagerG : \A y \in EagerG : x <= y
          IN z' = IF z.g[g].hpc = "idle" THEN [z EXCEPT !.g[g].inq = Tail(@)]
                  ELSE [z EXCEPT !.g[g].hpc = IF @ = "cb" THEN "idle" ELSE "done", !.g[g].hc = 0]

TInit == \E t \in 1..Len(Traces) : tid = t /\ l = 1 /\ z = ZInit0(Traces[t].cseq, Traces[t].ws)
TInternal == (IF EagerG # {} THEN TEager ELSE Internal) /\ UNCHANGED <<tid, l>>
TEnv == IsEnv /\ Apply(Line) /\ l' = l + 1 /\ UNCHANGED tid
TObs == IsObs /\ Stable /\ Bad(Line) = {} /\ Observed /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TInternal \/ TEnv \/ TObs]_<<z, tid, l>>

Report ==
  /\ Compatible
  /\ (Debug /\ IsObs /\ Stable /\ Bad(Line) # {}) => PrintT(<<"MISMATCH", l, Bad(Line), z>>)
  /\ Debug => PrintT(<<"AT", l>>)
  /\ IF l > Len(Lines) THEN PrintT(<<"DONE", tid>>) /\ FALSE ELSE TRUE
=============================================================================
