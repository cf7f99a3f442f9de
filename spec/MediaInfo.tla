----------------------------- MODULE MediaInfo -------------------------------
(* What a media section says about its track (RFC 4566 section 6, RFC 3551   *)
(* tables 4 and 5).  Numbers of the section are strings; -1: not given.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Audio(n, rate, ch) == [name |-> n, rate |-> rate, ch |-> ch]
Video(n) == [name |-> n, rate |-> 90000, ch |-> -1]
Static == 0 :> Audio("PCMU", 8000, 1) @@ 3 :> Audio("GSM", 8000, 1) @@ 4 :> Audio("G723", 8000, 1) @@ 5 :> Audio("DVI4", 8000, 1)
       @@ 6 :> Audio("DVI4", 16000, 1) @@ 7 :> Audio("LPC", 8000, 1) @@ 8 :> Audio("PCMA", 8000, 1) @@ 9 :> Audio("G722", 8000, 1)
       @@ 10 :> Audio("L16", 44100, 2) @@ 11 :> Audio("L16", 44100, 1) @@ 12 :> Audio("QCELP", 8000, 1) @@ 13 :> Audio("CN", 8000, 1)
       @@ 14 :> Audio("MPA", 90000, -1) @@ 15 :> Audio("G728", 8000, 1) @@ 16 :> Audio("DVI4", 11025, 1) @@ 17 :> Audio("DVI4", 22050, 1)
       @@ 18 :> Audio("G729", 8000, 1) @@ 25 :> Video("CelB") @@ 26 :> Video("JPEG") @@ 28 :> Video("nv") @@ 31 :> Video("H261")
       @@ 32 :> Video("MPV") @@ 33 :> Video("MP2T") @@ 34 :> Video("H263")

\* section: medium, fmts: payload types, maps: sequence of [pt, name, rate, ch] (rate, ch: -1 absent),
\*   fmtps: sequence of [pt, ps: sequence of <<name, value>>], control, dims: <<>> or <<w, h>>, fr: "" | "framerate" | "x-framerate", fps
Map(s, pt) == LET S == {i \in 1..Len(s.maps) : s.maps[i].pt = pt} IN
  IF S = {} THEN [name |-> "", rate |-> -1, ch |-> -1] ELSE LET m == s.maps[CHOOSE i \in S : \A j \in S : i <= j] IN [name |-> m.name, rate |-> m.rate, ch |-> m.ch]
Params(s, pt) == LET S == {i \in 1..Len(s.fmtps) : s.fmtps[i].pt = pt} IN IF S = {} THEN <<>> ELSE s.fmtps[CHOOSE i \in S : \A j \in S : i <= j].ps
Codec(s) == LET pt == s.fmts[1] IN IF pt \in DOMAIN Static THEN Static[pt] ELSE Map(s, pt)
\* the codec of a section whose first format has neither a static assignment nor an rtpmap is open
Known(s) == s.fmts[1] \in DOMAIN Static \/ \E i \in 1..Len(s.maps) : s.maps[i].pt = s.fmts[1]
Info(s) == [medium |-> s.medium, pt |-> s.fmts[1], codec |-> Codec(s).name, rate |-> Codec(s).rate, ch |-> Codec(s).ch, known |-> Known(s),
            url |-> s.control, w |-> IF s.dims = <<>> THEN 0 ELSE s.dims[1], h |-> IF s.dims = <<>> THEN 0 ELSE s.dims[2],
            fps |-> IF s.fr = "" THEN 0 ELSE s.fps, params |-> Params(s, s.fmts[1])]
\* the media map of the session after DESCRIBE and SETUP of all tracks
InfoMap(secs) == [i \in 1..Len(secs) |-> [ch |-> 2 * (i - 1), info |-> Info(secs[i])]]

\* attribute lines of a section
Num(n) == ToString(n)
MapLine(m) == <<"rtpmap", Num(m.pt) \o " " \o m.name \o (IF m.rate = -1 THEN "" ELSE "/" \o Num(m.rate)) \o (IF m.ch = -1 THEN "" ELSE "/" \o Num(m.ch))>>
RECURSIVE JoinP(_, _)
JoinP(q, sep) == IF q = <<>> THEN "" ELSE (IF q[1][2] = "" THEN q[1][1] ELSE q[1][1] \o "=" \o q[1][2]) \o (IF Len(q) = 1 THEN "" ELSE sep) \o JoinP(Tail(q), sep)
FmtpLine(f, sep, tail) == <<"fmtp", Num(f.pt) \o " " \o JoinP(f.ps, sep) \o tail>>
=============================================================================
