------------------------------- MODULE ConnMC -------------------------------
(* Exhaustive check of the design: every interleaving of a few sends, a     *)
(* close, the peer and a hostile transport, for small constants.            *)
EXTENDS Conn
CONSTANTS Rto, Cap, MaxMsgs, MaxCalls, MaxFeed, Ticks, Gates
VARIABLES acc,   \* messages accepted into the queue, in order (0: close mark)
          nid, nc, nt
wrote == s.wr   \* no observation resets these here: they are the whole history
evs == s.ev

mvars == <<s, acc, nid, nc, nt>>

MInit == s = Init0(Cap, Rto) /\ acc = <<>> /\ nid = 0 /\ nc = 0 /\ nt = 0

Hist == acc' = IF Len(s'.q) > Len(s.q) THEN Append(acc, s'.q[Len(s'.q)]) ELSE acc

Inner == \/ Internal /\ UNCHANGED <<nid, nc, nt>>
         \/ ERun /\ UNCHANGED <<nid, nc, nt>>
         \/ nc < MaxCalls /\ nid < MaxMsgs /\ ESend(nc + 1, <<nid + 1>>) /\ nc' = nc + 1 /\ nid' = nid + 1 /\ UNCHANGED nt
         \/ nc < MaxCalls /\ EClose(nc + 1) /\ nc' = nc + 1 /\ UNCHANGED <<nid, nt>>
         \/ s.arr < MaxFeed /\ ~s.rend /\ EFeed(1, 0) /\ UNCHANGED <<nid, nc, nt>>
         \/ Rto > 0 /\ ~s.rend /\ s.ph < 2 /\ EFeed(0, s.ph + 1) /\ UNCHANGED <<nid, nc, nt>>
         \/ ~s.rend /\ EEnd /\ UNCHANGED <<nid, nc, nt>>
         \/ \E m \in {"ok", "stall", "fail"} : "w" \in Gates /\ m # s.wmode /\ s.wmode # "fail" /\ EWrites(m) /\ UNCHANGED <<nid, nc, nt>>
         \/ "h" \in Gates /\ EHold(~s.hold) /\ UNCHANGED <<nid, nc, nt>>
         \/ "s" \in Gates /\ EHoldSer(~s.hser) /\ UNCHANGED <<nid, nc, nt>>
         \/ "c" \in Gates /\ EHoldClose(~s.hclose) /\ UNCHANGED <<nid, nc, nt>>
         \/ "b" \in Gates /\ s.boom = "" /\ (\E x \in {"handler", "proto"} : EBoom(x)) /\ UNCHANGED <<nid, nc, nt>>
         \/ nt < Ticks /\ (s.calls # {} \/ s.rto > 0) /\ (\E d \in {SendTimeout} \cup (IF Rto > 0 THEN {Rto, Rto - 1} ELSE {}) : ETick(d)) /\ nt' = nt + 1 /\ UNCHANGED <<nid, nc>>

MNext == Inner /\ Hist
MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
NoMark(q) == SelectSeq(q, LAMBDA x : x # 0)

\* C11: written = accepted, whole, once each, in order (never anything after the close mark)
FirstMark(q) == IF \E i \in 1..Len(q) : q[i] = 0 THEN CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..i-1 : q[j] # 0 ELSE Len(q) + 1
BeforeMark == SubSeq(acc, 1, FirstMark(acc) - 1)
WrittenIsAcceptedPrefix == IsPrefixOf(wrote, BeforeMark)
\* C11: the close mark is honoured only after everything before it was written
CloseAfterWrites == (s.spc = "cls" /\ s.item = 0) => wrote = BeforeMark
\* C11: no call outlives the send timeout
CallsBounded == \A call \in s.calls : call.pc = "blk" => (s.now <= call.dl /\ call.dl <= s.now + SendTimeout)
\* C11: nobody waits on a connection that is gone
NobodyStuck == (Stable /\ s.rpc = "done") => \A call \in s.calls : call.pc = "cls"
\* C12: connected, data in order, one disconnected, nothing afterwards
EventOrder ==
  \/ evs = <<>>
  \/ /\ evs[1] = "conn"
     /\ \A i \in 2..Len(evs) : evs[i] = "disc" => i = Len(evs)
     /\ \A i \in 2..Len(evs) : evs[i] # "disc" => evs[i] = ToString(i - 1)
\* C12: status
StatusOk == /\ s.st = "none" <=> s.rpc = "none"
            /\ s.rpc \in {"edisc", "done"} => s.st = "disc"
            /\ (s.st = "disc") => s.sock = "closed"
\* C12: nothing left running
NothingLeft == (Stable /\ s.rpc = "done" /\ ~s.hser /\ ~s.hclose) => s.spc \in {"none", "done"} /\ s.calls = {}
\* C11/C12: a connection whose transport was closed is torn down (unless a callback is held)
ClosedGoesDown == (Stable /\ s.sock = "closed" /\ ~s.hold /\ ~s.hclose /\ s.rpc # "none") => s.rpc = "done"
\* C18: a silent connection ends, and only such a one; the handler's time does not count
SilenceEnds == Stable /\ s.rpc = "read" /\ s.rto > 0 => (s.now < s.rdl /\ s.rdl <= s.now + s.rto)
NoTimeoutElsewhere == s.rpc # "read" => s.rdl = -1
NoTimeoutWithout == s.rto = 0 => s.rdl = -1
=============================================================================
