----------------------------- MODULE FramingGen -----------------------------
(* Random message sequences with random cuts (-simulate), and all two-part   *)
(* splits of some short streams (exhaustive search), as scripts.             *)
EXTENDS Framing, TLC, Json
CONSTANT Mode      \* "random" | "cuts"
VARIABLES hist, ph
gvars == <<f, hist, ph>>
R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]

SmallB == <<0, 0, 1, 2, 3, 4, 5, 11, 12, 13, 40>>
MidB == <<100, 255, 256, 257, 1000, 4091, 4092, 4093, 4096>>
BigB == <<16384, 32764, 32767, 32768, 65530, 65531, 65532, 65533, 65534, 65535>>
Frame(b) == [k |-> "f", h |-> 4, b |-> b, v |-> 0]
Resp(h, b, v) == [k |-> "r", h |-> h, b |-> b, v |-> v]

RandMsg(x) ==
  LET c == R(1..20) v == R(0..11) IN
  CASE c <= 7 -> Frame(Pick(SmallB))
    [] c <= 9 -> Frame(Pick(MidB))
    [] c <= 11 -> Frame(Pick(BigB))
    [] c <= 13 -> Resp(R({19, 20, 21, 50, 200}), 0, v)
    [] c <= 16 -> Resp(R(100..130), Pick(SmallB \o MidB), v)
    [] c = 17 -> Resp(R({100, 1000, 40000}), Pick(BigB), v)
    [] c = 18 -> LET h == R({100, 5000, 60000}) IN Resp(h, Limit - h + Pick(<<-1, 0, 0, 1, 2, 1000>>), v)
    [] c = 19 -> LET h == R({Limit - 1, Limit, Limit + 1, Limit - 200}) IN Resp(h, Pick(<<0, 0, 1, 200, 201>>), v)
    [] OTHER -> Frame(R(0..65535))

\* streams for which every split in two is tried
CutStreams ==
  { << Frame(0), Frame(1), Frame(5) >>,
    << Frame(13), Resp(19, 0, 0), Frame(0) >>,
    << Resp(110, 7, 1), Frame(3) >>,
    << Resp(104, 0, 2), Resp(101, 12, 3), Frame(2) >>,
    << Resp(20, 0, 4), Resp(102, 4, 5) >>,
    << Frame(257), Resp(108, 2, 6) >>,
    << Resp(130, 40, 7), Resp(125, 3, 8), Frame(0), Frame(0), Frame(12) >>,
    << Resp(120, 9, 9), Resp(122, 1, 10), Resp(127, 5, 11) >> }

GInit ==
  /\ ph = IF Mode = "random" THEN "msgs" ELSE "run"
  /\ IF Mode = "random"
     THEN hist = <<>> /\ f = FInit0(<<>>)
     ELSE \E ms \in CutStreams, p \in 1..600 : p < Total(ms) /\ f = FInit0(ms)
             /\ hist = <<[a |-> "feed", n |-> p], [a |-> "feed", n |-> Total(ms) - p]>>

GMsgs == /\ ph = "msgs"
         /\ \E m \in {RandMsg(f)} : f' = FInit0(Append(f.msgs, m))
         /\ ph' = IF Len(f'.msgs) = 7 \/ R(1..4) = 1 THEN "run" ELSE "msgs"
         /\ UNCHANGED hist

\* positions of interest in the rest of the stream
Left == Total(f.msgs) - f.pos
Ends == {SumTo(f.msgs, i) : i \in 1..Len(f.msgs)} \cup {SumTo(f.msgs, i - 1) + f.msgs[i].h : i \in 1..Len(f.msgs)}
Near == {x - f.pos : x \in {e + d : e \in Ends, d \in {-4, -3, -2, -1, 0, 1, 2, 3, 4, 5}}}
Cuts == {x \in Near : x > 0 /\ x <= Left}

GFeed ==
  /\ ph = "run" /\ Mode = "random" /\ FStable /\ Left > 0 /\ f.up /\ Len(hist) < 60
  /\ \E n \in {CASE R(1..12) <= 8 /\ Cuts # {} -> R(Cuts)
                 [] R(1..3) = 1 -> Left
                 [] R(1..2) = 1 -> Least(Left, R({1, 2, 3, 65535, 65536, 30000}))
                 [] OTHER -> R(1..Left)} :
       FArrive(n) /\ hist' = Append(hist, [a |-> "feed", n |-> n])
  /\ UNCHANGED ph
GInt == ph = "run" /\ Mode = "random" /\ FInternal /\ UNCHANGED <<hist, ph>>
GClose ==
  /\ ph = "run" /\ FStable
  /\ Mode = "cuts" \/ Left = 0 \/ ~f.up \/ Len(hist) >= 60 \/ R(1..25) = 1
  /\ PrintT("SCRIPT " \o ToJson([msgs |-> f.msgs, steps |-> hist]))
  /\ ph' = "done" /\ UNCHANGED <<f, hist>>
GSpec == GInit /\ [][GMsgs \/ GFeed \/ GInt \/ GClose]_gvars
=============================================================================
