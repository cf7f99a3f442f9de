----------------------------- MODULE ConnSteps ------------------------------
(* Environment steps of Conn as records, as they appear in scripts and traces *)
EXTENDS Conn

Apply(e) ==
  CASE e.a = "run"       -> ERun
    [] e.a = "send"      -> ESend(e.c, e.ids)
    [] e.a = "close"     -> EClose(e.c)
    [] e.a = "feed"      -> EFeed(e.n, e.ph)
    [] e.a = "end"       -> EEnd
    [] e.a = "writes"    -> EWrites(e.m)
    [] e.a = "hold"      -> EHold(e.b)
    [] e.a = "holdser"   -> EHoldSer(e.b)
    [] e.a = "holdclose" -> EHoldClose(e.b)
    [] e.a = "boom"      -> EBoom(e.x)
    [] e.a = "tick"      -> ETick(e.d)
    [] OTHER             -> FALSE
=============================================================================
