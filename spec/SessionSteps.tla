---------------------------- MODULE SessionSteps ----------------------------
(* Environment steps of Session as records, as they appear in scripts and    *)
(* traces.                                                                   *)
EXTENDS Session
ToSet(q) == {q[i] : i \in 1..Len(q)}
Msg(m) == CASE m.k = "rep" -> [k |-> "rep", st |-> m.st, nt |-> m.nt, sid |-> m.sid, ch |-> ToSet(m.ch)]
            [] m.k = "rtp" -> [k |-> "rtp", ch |-> m.ch, id |-> m.id]
            [] OTHER -> [k |-> m.k]
Msgs(q) == [i \in 1..Len(q) |-> Msg(q[i])]

Apply(e) ==
  CASE e.a = "call"   -> ECall(e.c, e.op, e.arg)
    [] e.a = "feed"   -> EFeed(e.g, Msgs(e.msgs))
    [] e.a = "end"    -> EEnd(e.g)
    [] e.a = "writes" -> EWrites(e.m)
    [] e.a = "holdd"  -> EHoldData(e.b)
    [] e.a = "holdx"  -> EHoldDisc(e.b)
    [] e.a = "nest"   -> ENest([on |-> e.on, c |-> e.c, op |-> e.op, cred |-> e.cred])
    [] e.a = "tick"   -> ETick(e.d)
    [] OTHER -> FALSE
=============================================================================
