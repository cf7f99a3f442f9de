---------------------------- MODULE MediaInfoGen -----------------------------
(* Vectors: descriptions of one or more connections of a session, and the    *)
(* media map each leads to.                                                  *)
EXTENDS MediaInfo, Json
CONSTANT Mode      \* "table": every payload type and form of rtpmap; "random"
VARIABLES k, q
vars == <<k, q>>
R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
P(n, x) == R(1..100) <= n /\ x = x
Dyn(x) == Pick(<<96, 97, 98, 99, 100, 101, 107, 111, 112, 126, 127, 35, 72, 77, 95, 1, 2, 19, 23, 24, 27, 29, 30>>)
Sta(x) == R(DOMAIN Static)
Names(x) == Pick(<<"H264", "H265", "HEVC", "h264", "MPEG4-GENERIC", "mpeg4-generic", "MP4A-LATM", "MP4V-ES", "PCMA", "PCMU", "G726-32", "opus", "vnd.onvif.metadata",
                  "telephone-event", "bbw", "JPEG", "L16", "x-unknown+codec", "H263-1998", "VP8", "AC3", "speex", "T140", "MPA-ROBUST", "B", "9">>)
MapOf(pt) == [pt |-> pt, name |-> Names(pt), rate |-> Pick(<<90000, 8000, 48000, 44100, 16000, 1000, R(1..200000), -1>>), ch |-> Pick(<<-1, -1, 1, 2, 6>>)]
Fix(m) == IF m.rate = -1 THEN [m EXCEPT !.ch = -1] ELSE m
Param(x) == Pick(<<<<"packetization-mode", "1">>, <<"profile-level-id", "420029">>, <<"sprop-parameter-sets", "Z0IAKeKQCgDLYC3AQEBpB4kRUA==,aM48gA==">>,
                  <<"sprop-vps", "QAEMAf//AWAAAAMAsAAAAwAAAwB4FwJA">>, <<"sprop-sps", "QgEBAWAAAAMA=">>, <<"sprop-pps", "RAHA8vA8kAA=">>, <<"config", "1190">>, <<"mode", "AAC-hbr">>,
                  <<"sizelength", "13">>, <<"streamtype", "5">>, <<"Indexlength", "3">>, <<"PROFILE", "1">>, <<"x", "a:b">>, <<"y", "=">>, <<"emphasis", "50-15">>, <<"DTX", "">>,
                  <<"profile-space", "0">>, <<"max-fs", "3600">>, <<"a.b-c_d", "(1)">>, <<"range", "0-15">>>>)
RECURSIVE ParamsOf(_), Others(_), Secs(_), Descs(_), Shuffle(_)
ParamsOf(n) == IF n = 0 THEN <<>> ELSE LET r == ParamsOf(n - 1) IN LET p == Param(n) IN IF \E i \in 1..Len(r) : r[i][1] = p[1] THEN r ELSE <<p>> \o r
Others(n) == IF n = 0 THEN <<>> ELSE <<Dyn(n)>> \o Others(n - 1)
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) IN IF \E i \in 1..Len(r) : r[i] = s[Len(s)] THEN r ELSE Append(r, s[Len(s)])
RECURSIVE MapsOf(_), FmtpsOf(_, _)
MapsOf(fs) == IF fs = <<>> THEN <<>> ELSE (IF fs[1] \in DOMAIN Static /\ P(70, fs) THEN <<>> ELSE <<Fix(MapOf(fs[1]))>>) \o MapsOf(Tail(fs))
FmtpsOf(fs, n) == IF fs = <<>> THEN <<>> ELSE (IF P(n, fs) THEN <<[pt |-> fs[1], ps |-> ParamsOf(R(1..6))]>> ELSE <<>>) \o FmtpsOf(Tail(fs), 70)
\* the parameters of other formats are given only if the first format has some too
Fmtps(fs) == IF P(50, fs) THEN FmtpsOf(fs, 100) ELSE <<>>
Shuffle(s) == IF s = <<>> THEN <<>> ELSE LET i == R(1..Len(s)) IN <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
SecOf(x) == LET fs == Dedup(<<IF P(40, x) THEN Sta(x) ELSE Dyn(x)>> \o Others(Pick(<<0, 0, 0, 1, 2, 4>>))) IN
  [medium |-> Pick(<<"video", "audio", "application", "text">>), fmts |-> fs, maps |-> Shuffle(MapsOf(fs)), fmtps |-> Shuffle(Fmtps(fs)),
   control |-> Pick(<<"trackID=1", "track2", "streamid=0", "rtsp://10.0.0.5:554/x/trackID=3", "video/h264?a=b", "rtsp://cam/a b">>), dims |-> Pick(<<<<>>, <<1280, 720>>, <<1920, 1080>>, <<R(1..9999), R(1..9999)>>>>),
   fr |-> Pick(<<"", "framerate", "x-framerate">>), fps |-> Pick(<<1, 25, 30, 60, 120, 240>>)]
Secs(n) == IF n = 0 THEN <<>> ELSE <<SecOf(n)>> \o Secs(n - 1)
Descs(n) == IF n = 0 THEN <<>> ELSE <<Secs(Pick(<<1, 1, 2, 2, 3, 5>>))>> \o Descs(n - 1)

RECURSIVE LinesOf(_, _)
LinesOf(fs, x) == IF fs = <<>> THEN <<>> ELSE
  <<FmtpLine(fs[1], Pick(<<";", "; ", "; ", " ; ">>), Pick(<<"", "", ";", "; ">>))>> \o LinesOf(Tail(fs), x)
Blank(x) == Pick(<<"", "", "", " ">>)
Attrs(s) == LET all == [i \in 1..Len(s.maps) |-> MapLine(s.maps[i])] \o LinesOf(s.fmtps, 1) \o <<<<"control", s.control>>>>
                       \o (IF s.dims = <<>> THEN <<>> ELSE <<<<"x-dimensions", Num(s.dims[1]) \o "," \o Blank(1) \o Num(s.dims[2])>>>>)
                       \o (IF s.fr = "" THEN <<>> ELSE <<<<s.fr, Blank(2) \o Num(s.fps)>>>>)
                       \o (IF P(30, s) THEN <<<<"recvonly", "">>>> ELSE <<>>) \o (IF P(30, s) THEN <<<<"range", "npt=0-">>>> ELSE <<>>)
                       \o (IF P(20, s) THEN <<<<"Media_header", "MEDIAINFO=494D4B48;">>>> ELSE <<>>)
            IN Shuffle(all)
RECURSIVE Texts(_), Outs(_)
Texts(ss) == IF ss = <<>> THEN <<>> ELSE <<[medium |-> ss[1].medium, fmts |-> ss[1].fmts, attrs |-> Attrs(ss[1])]>> \o Texts(Tail(ss))
Outs(ds) == IF ds = <<>> THEN <<>> ELSE <<[secs |-> Texts(ds[1]), map |-> InfoMap(ds[1]), decoy |-> P(40, ds)]>> \o Outs(Tail(ds))
EmitDescs(ds) == PrintT("SCRIPT " \o ToJson([descs |-> Outs(ds)]))

Plain(pt, form) ==
  [medium |-> "video", fmts |-> IF form.others THEN <<pt, 96, 8>> ELSE <<pt>>, fmtps |-> <<>>, control |-> "t", dims |-> <<>>, fr |-> "", fps |-> 0,
   maps |-> LET own == IF form.f = "none" THEN <<>> ELSE <<[pt |-> pt, name |-> "X", rate |-> IF form.f = "name" THEN -1 ELSE 12345, ch |-> IF form.f = "full" THEN 3 ELSE -1]>>
                oth == IF form.others /\ pt # 96 THEN <<[pt |-> 96, name |-> "OTHER", rate |-> 1, ch |-> 9]>> ELSE <<>>
            IN IF form.last THEN oth \o own ELSE own \o oth]
Forms == [f : {"none", "name", "rate", "full"}, others : BOOLEAN, last : BOOLEAN]
Init == k = 0 /\ q \in (IF Mode = "table" THEN [pt : 0..127, form : Forms] ELSE {"-"})
Next == /\ k < (IF Mode = "table" THEN 1 ELSE 20) /\ k' = k + 1 /\ UNCHANGED q
        /\ IF Mode = "table" THEN EmitDescs(<<<<Plain(q.pt, q.form)>>>>)
           ELSE \E ds \in {Descs(Pick(<<1, 1, 2, 3>>))} : EmitDescs(ds)
Spec == Init /\ [][Next]_vars

ASSUME \A pt \in DOMAIN Static : pt \in 0..34
=============================================================================
