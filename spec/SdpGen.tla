------------------------------- MODULE SdpGen --------------------------------
(* Vectors for the harness: messages with their lines ("msg"), every choice  *)
(* of optional lines ("grammar"), descriptions that must be refused ("bad"). *)
EXTENDS Sdp, Json
CONSTANT Mode
VARIABLES k, combo
vars == <<k, combo>>

R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]
P(n, x) == R(1..100) <= n /\ x = x
Maybe(n, s) == IF P(n, s) THEN s ELSE ""
Texts(x) == Pick(<<"x", "-", "Media Presentation", "SDP Seminar", "a=b:c", "v=0", "=", "name:with:colons", "m=video 0 RTP/AVP 96", "two  blanks", "tab\there",
                 "U~berschrift", "~J", "100%", "a/b\\c;d,e", "'quoted'", "#1", "s=", "t=0 0", " leading">>)
Ntp(x) == Pick(<<"0", "1", "2208988799", "2208988800", "2208988801", "2873397496", "2882844526", "3034423619", "3042462419", "3724394400", "4294967295", "4294967296", "99999999999">>)
NtpStart(x) == Pick(<<"1", "2882844526", "2898848070", "3724394400">>)
Num(x) == Pick(<<"0", "1", "7", "12", "1109162014219182", "1109162014219192", "2890844526", "9223372036854775807", "9223372036854775808", "16388127341259276853", "18446744073709551615">>)
Dur(x) == Pick(<<0, 1, 10, 59, 60, 61, 3599, 3600, 3660, 7200, 86399, 86400, 90000, 604800, 31536000, R(1..100000)>>)
Off(x) == Pick(<<0, 3600, -3600, 1, -1, 90, -5400, 7200, -86400>>)
ConnOf(x) == IF x = 0 THEN NoConn ELSE
  Pick(<<[NoConn EXCEPT !.on = TRUE, !.net = "IN", !.at = "IP4", !.ip = Pick(<<"0.0.0.0", "10.47.16.5", "224.2.1.1", "255.255.255.255">>)],
         [NoConn EXCEPT !.on = TRUE, !.net = "IN", !.at = "IP4", !.ip = "224.2.1.1", !.ttl = Pick(<<"1", "127", "255">>)],
         [on |-> TRUE, net |-> "IN", at |-> "IP4", ip |-> "233.252.0.1", ttl |-> Pick(<<"1", "127", "255">>), n |-> Pick(<<"1", "3", "255">>)],
         [NoConn EXCEPT !.on = TRUE, !.net = "IN", !.at = "IP6", !.ip = Pick(<<"::", "::1", "FF15::101", "2001:DB8::7", "FE80::1:2:3:4">>)],
         [NoConn EXCEPT !.on = TRUE, !.net = "IN", !.at = "IP6", !.ip = "FF15::101", !.n = Pick(<<"1", "3", "255">>)]>>)
BwOf(x) == Pick(<<<<>>, <<>>, <<<<"CT", Pick(<<"0", "64", "154798">>)>>>>, <<<<"AS", "66781">>>>, <<<<"CT", "128">>, <<"AS", "5000">>>>, <<<<"AS", "1">>, <<"CT", "2">>>>,
                   <<<<"TIAS", "64000">>>>, <<<<"RR", "0">>>>, <<<<"AS", "84">>, <<"TIAS", "64000">>, <<"RS", "0">>, <<"RR", "2000">>>>, <<<<"X-YZ", "128">>, <<"CT", "1">>>>>>)
EncOf(x) == Pick(<<NoEnc, NoEnc, [on |-> TRUE, m |-> "prompt", k |-> ""], [on |-> TRUE, m |-> "clear", k |-> "ab8c4df8b8f4as8v8iuy8re"],
                   [on |-> TRUE, m |-> "base64", k |-> "YWJj=="], [on |-> TRUE, m |-> "uri", k |-> "https://k.example:8443/x?y=z"]>>)
AttrOf(x) == Pick(<<<<"recvonly", "">>, <<"sendrecv", "">>, <<"control", "*">>, <<"control", "rtsp://10.0.0.5:554/a/trackID=1">>, <<"rtpmap", "96 H264/90000">>,
                    <<"rtpmap", "97 MPEG4-GENERIC/48000/2">>, <<"fmtp", "96 packetization-mode=1; sprop-parameter-sets=Z0IAKeKQ,aM48gA==">>, <<"range", "npt=0-">>,
                    <<"x", "a:b=c d">>, <<"x", "second">>, <<"x", "">>, <<"x-dimensions", "1280,720">>, <<"framerate", "25">>, <<"tool", Texts(x)>>, <<"type", "~A~O: 1">>>>)
RECURSIVE Attrs1(_), Durs(_)
Attrs1(n) == IF n = 0 THEN <<>> ELSE <<AttrOf(n)>> \o Attrs1(n - 1)
Durs(n) == IF n = 0 THEN <<>> ELSE <<Dur(n)>> \o Durs(n - 1)
TimingOf(x) == [start |-> Ntp(x), end |-> Ntp(x),
                rep |-> IF P(40, x) THEN <<[interval |-> Dur(x), active |-> Dur(x), offs |-> Durs(R(1..3))]>> ELSE <<>>]
RECURSIVE TzOf(_), Timings1(_), Medias1(_), ComboT(_, _)
TzOf(n) == IF n = 0 THEN <<>> ELSE <<<<NtpStart(n), Off(n)>>>> \o TzOf(n - 1)
Timings1(n) == IF n = 0 THEN <<>> ELSE <<TimingOf(n)>> \o Timings1(n - 1)
MediaOf(x) == [type |-> Pick(<<"audio", "video", "application", "text", "message">>), port |-> Pick(<<"0", "49170", "65535">>), nports |-> Pick(<<"", "", "1", "2", "7">>),
               proto |-> Pick(<<"RTP/AVP", "RTP/AVP", "RTP/SAVP", "udp", "TCP/RTP/AVP">>), fmt |-> Pick(<<"0", "96", "96 97 98", "31", "wb", "98 0 8">>),
               title |-> Maybe(30, Texts(x)), conn |-> ConnOf(Pick(<<0, 0, 1>>)), bw |-> BwOf(x), enc |-> EncOf(x), attrs |-> Attrs1(R(0..4))]
Medias1(n) == IF n = 0 THEN <<>> ELSE <<MediaOf(n)>> \o Medias1(n - 1)
OriginOf(x) == Pick(<<<<"-", Num(x), Num(x), "IN", "IP4", Pick(<<"10.47.16.5", "0.0.0.0", "host.example">>)>>, <<"jdoe", Num(x), Num(x), "IN", "IP6", "2001:DB8::7">>,
                     <<"a=b", Num(x), "0", "IN", "IP4", "x">>>>)
Random(x) ==
  [version |-> Pick(<<"0", "0", "0", "1", "7">>), origin |-> OriginOf(x), name |-> Pick(<<Texts(x), Texts(x), " ">>), info |-> Maybe(50, Texts(x)),
   uri |-> Maybe(40, "http://www.example.com/seminars/sdp.pdf?a=b:c"), email |-> Maybe(40, Pick(<<"j.doe@example.com (Jane Doe)", "Jane Doe <j.doe@example.com>">>)),
   phone |-> Maybe(40, "+44-171-380-7777"), conn |-> ConnOf(Pick(<<0, 1>>)), bw |-> BwOf(x),
   timing |-> Timings1(Pick(<<0, 1, 1, 1, 2, 3>>)), tz |-> TzOf(Pick(<<0, 0, 1, 2, 3>>)), enc |-> EncOf(x), attrs |-> Attrs1(R(0..4)),
   media |-> Medias1(Pick(<<0, 1, 1, 2, 3, 6>>))]
Spell(d) == R(Spellings(d))
RECURSIVE Canon(_), Spelt(_)
Canon(ls) == IF ls = <<>> THEN <<>> ELSE <<<<ls[1].t, Value(ls[1], Compact)>>>> \o Canon(Tail(ls))
Spelt(ls) == IF ls = <<>> THEN <<>> ELSE <<<<ls[1].t, Value(ls[1], Spell)>>>> \o Spelt(Tail(ls))
PrintMsg(m, zf) == PrintT("SCRIPT " \o ToJson([kind |-> "msg", msg |-> m, lines |-> Spelt(Lines(m, zf)), enc |-> Canon(Lines(m, FALSE))]))

(* every combination of optional lines; repeated lines once, twice or not at all *)
Combos == [i : BOOLEAN, u : BOOLEAN, e : BOOLEAN, p : BOOLEAN, c : BOOLEAN, b : 0..2, t : 0..2, r : BOOLEAN, z : {"no", "before", "after"}, k : BOOLEAN, a : 0..2]
ComboT(n, r) == IF n = 0 THEN <<>> ELSE
  <<[start |-> Ntp(n), end |-> Ntp(n), rep |-> IF r THEN <<[interval |-> Dur(n), active |-> Dur(n), offs |-> <<Dur(n)>>]>> ELSE <<>>]>> \o ComboT(n - 1, r)
OfCombo(q) ==
  [version |-> "0", origin |-> <<"-", "1", "2", "IN", "IP4", "10.0.0.5">>, name |-> "N", info |-> IF q.i THEN "I" ELSE "", uri |-> IF q.u THEN "U" ELSE "",
   email |-> IF q.e THEN "E" ELSE "", phone |-> IF q.p THEN "P" ELSE "", conn |-> ConnOf(IF q.c THEN 1 ELSE 0),
   bw |-> SubSeq(<<<<"CT", "1">>, <<"AS", "2">>>>, 1, q.b),
   timing |-> ComboT(q.t, q.r),
   tz |-> IF q.z = "no" THEN <<>> ELSE TzOf(1), enc |-> IF q.k THEN [on |-> TRUE, m |-> "clear", k |-> "K"] ELSE NoEnc, attrs |-> Attrs1(q.a),
   media |-> Medias1(R(0..2))]
MCombos == [i : BOOLEAN, c : BOOLEAN, b : 0..2, k : BOOLEAN, a : 0..2]
OfMCombo(q) == [MediaOf(1) EXCEPT !.title = IF q.i THEN "T" ELSE "", !.conn = ConnOf(IF q.c THEN 1 ELSE 0), !.bw = SubSeq(<<<<"CT", "1">>, <<"AS", "2">>>>, 1, q.b),
                !.enc = IF q.k THEN [on |-> TRUE, m |-> "clear", k |-> "K"] ELSE NoEnc, !.attrs = Attrs1(q.a)]

(* descriptions that must be refused *)
BadValue(t, x) ==
  CASE t = "v" -> Pick(<<"x", "0 0", "0x1", "1.0", "-", "0,1", "zero">>)
    [] t = "o" -> Pick(<<"jdoe 1 1 IN IP4", "jdoe 1 1 IN IP4 10.0.0.1 x", "jdoe", "jdoe x 1 IN IP4 10.0.0.1", "jdoe 1 NaN IN IP4 10.0.0.1", "jdoe  1 1 IN IP4 10.0.0.1",
                         "1 1 IN IP4 10.0.0.1", "jdoe 1  IN IP4 10.0.0.1", "jdoe 1.5 1 IN IP4 10.0.0.1">>)
    [] t = "c" -> Pick(<<"IN", "IN IP4", "IN IP4 10.0.0.1 x", "IN IP4 224.2.1.1/256", "IN IP4 224.2.1.1/127/256", "IN IP4 224.2.1.1/x", "IN IP4 224.2.1.1/127/y",
                         "IN IP4 224.2.1.1/127/3/4", "IN IP4 224.2.1.1/", "IN IP4 224.2.1.1/127/", "IN IP4 224.2.1.1//3", "IN IP6 FF15::101/300", "IN IP6 FF15::101/1/2",
                         "IN IP4 224.2.1.1/-1", "IN IP4 224.2.1.1/1000", "IN IP6 FF15::101/-1", "IN IP4 224.2.1.1/127/-3", "IN  10.0.0.1", "IN IP4 224.2.1.1/1.5">>)
    [] t = "b" -> Pick(<<"AS", "AS:", "AS:x", "CT:1.5", "CT:12k", "CT", "AS:0x10", "CT: ">>)
    [] t = "t" -> Pick(<<"0", "0 0 0", "-1 0", "0 -1", "x 0", "0 y", "2873397496  2873404696", "2873397496 2873404696 1", "1.5 2", "0,0", "-2873397496 2873404696">>)
    [] t = "r" -> Pick(<<"7d", "7d 1h", "x 1h 0", "7d y 0", "7d 1h z", "d 1h 0", "7d 1h h", "7d  1h 0", "7w 1h 0", "7d 1h 0 1hh">>)
    [] t = "z" -> Pick(<<"2882844526", "2882844526 -1h 2898848070", "x -1h", "2882844526 y", "-2882844526 1h", "2882844526  -1h", "2882844526 h", "1.5 1h">>)
    [] t = "m" -> Pick(<<"audio", "audio 49170", "audio 49170 RTP/AVP", "audio x RTP/AVP 0", "audio 49170/x RTP/AVP 0", "audio 49170/ RTP/AVP 0", "audio /2 RTP/AVP 0",
                         "audio  RTP/AVP 0", "audio 49170  RTP/AVP 0", "audio 49170/2/3 RTP/AVP 0", "audio 1.5 RTP/AVP 0">>)
    [] OTHER -> ""
Checked == {"v", "o", "c", "b", "t", "r", "z", "m"}
Foreign(x) == Pick(<<<<"x", "1">>, <<"q", "x=y">>, <<"V", "0">>, <<"A", "b">>, <<"M", "video 0 RTP/AVP 96">>, <<"aa", "recvonly">>, <<"vv", "0">>, <<"mm", "video 0 RTP/AVP 96">>,
                     <<"1", "2">>, <<"~u", "x">>, <<"f", "y">>, <<"", "v">>, <<"a ", "x">>>>)
After(t, x) == CASE t = "v" -> "0" [] t = "o" -> "- 1 1 IN IP4 10.0.0.1" [] t = "s" -> "late" [] t = "u" -> "http://x" [] t = "e" -> "a@b" [] t = "p" -> "1"
              [] t = "t" -> "0 0" [] t = "r" -> "7d 1h 0" [] t = "z" -> "2882844526 1h"
Insert(q, i, l) == SubSeq(q, 1, i) \o <<l>> \o SubSeq(q, i + 1, Len(q))
FirstOf(q, t) == IF \E i \in 1..Len(q) : q[i][1] = t THEN CHOOSE i \in 1..Len(q) : q[i][1] = t /\ \A j \in 1..(i - 1) : q[j][1] # t ELSE Len(q) + 1
Bad(q, how) ==
  CASE how = "unknown" -> Insert(q, R(0..Len(q)), Foreign(how))
    [] how = "late" -> LET m == FirstOf(q, "m") IN
         IF m > Len(q) THEN Insert(q, R(0..Len(q)), Foreign(how))
         ELSE LET t == Pick(<<"v", "o", "s", "u", "e", "p", "t", "r", "z">>) IN Insert(q, R(m..Len(q)), <<t, After(t, how)>>)
    [] how = "repeat" -> LET n == FirstOf(q, "t") - 1 IN Insert(q, R(0..n), <<"r", "7d 1h 0">>)
    [] OTHER -> LET S == {i \in 1..Len(q) : q[i][1] \in Checked} IN
         LET i == R(S) IN [q EXCEPT ![i] = <<q[i][1], BadValue(q[i][1], how)>>]
PrintBad(m, zf, how) == PrintT("SCRIPT " \o ToJson([kind |-> "bad", how |-> how, lines |-> Bad(Spelt(Lines(m, zf)), how)]))

Init == /\ k = 0
        /\ combo \in (IF Mode = "grammar" THEN [kind : {"s"}, q : Combos] \cup [kind : {"m"}, q : MCombos] ELSE {"no"})
Next ==
  /\ k < (IF Mode = "grammar" THEN 1 ELSE 20) /\ k' = k + 1 /\ UNCHANGED combo
  /\ CASE Mode = "grammar" -> \E m \in {IF combo.kind = "s" THEN OfCombo(combo.q)
                                        ELSE LET x == [Random(k) EXCEPT !.media = <<OfMCombo(combo.q)>>] IN
                                             IF P(50, k) THEN [x EXCEPT !.media = @ \o <<MediaOf(k)>>] ELSE x} :
                              PrintMsg(m, IF combo.kind = "s" THEN combo.q.z = "before" ELSE FALSE)
       [] Mode = "msg" -> \E m \in {Random(k)} : PrintMsg(m, m.tz # <<>> /\ P(40, k))
       [] OTHER -> \E m \in {Random(k)} : \E how \in {Pick(<<"unknown", "late", "repeat", "value", "value", "value", "value", "value">>)} :
                   PrintBad(m, m.tz # <<>> /\ P(40, k), how)
Spec == Init /\ [][Next]_vars
=============================================================================
