----------------------------- MODULE SdpBuildGen -----------------------------
(* Vectors: every call with every kind of argument ("calls"), and random      *)
(* sequences of calls ("build").                                              *)
EXTENDS SdpBuild, Json
CONSTANT Mode
VARIABLES k, hist, fin
vars == <<lines, k, hist, fin>>
R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]

Texts == {"x", "-", "SDP Seminar", "a=b:c", "=", ":", "two  blanks", "U~berschrift", "~J", " leading", "m=video 0 RTP/AVP 96", "http://h/x?a=b", "+1 617", "j@h (J D)"}
Nums == {"0", "1", "9", "10", "99", "100", "2890844526", "9223372036854775807"}
Big == {"9223372036854775808", "16388127341259276853", "18446744073709551615"}
Times == {"0", "1", "2208988799", "2208988800", "2208988801", "2873397496", "4294967295", "4294967296", "99999999999"}
Durs == {0, 1, 10, 59, 60, 61, 3599, 3600, 3660, 7200, 86399, 86400, 90000, 604800, 31536000}
Ip4 == {[a |-> x, t |-> "IP4"] : x \in {"0.0.0.0", "10.47.16.5", "224.2.1.1", "255.255.255.255", "9.10.99.100"}}
Ip6 == {[a |-> x, t |-> "IP6"] : x \in {"::", "::1", "FF15::101", "2001:DB8::7", "FE80::1:2:3:4"}}
Hosts == {[a |-> x, t |-> "IP4"] : x \in {"host.example", "localhost", "-"}}
Ops == {"version", "origin", "name", "info", "uri", "email", "phone", "conn", "connip", "bw", "timing", "ntp", "repeat", "compact", "zones", "key", "method",
        "flag", "attr", "media", "raw", "line"}

RECURSIVE DurSeq(_), ZoneSeq(_), WordSeq(_)
DurSeq(n) == IF n = 0 THEN <<>> ELSE <<R(Durs \cup {n})>> \o DurSeq(n - 1)
ZoneSeq(n) == IF n = 0 THEN <<>> ELSE <<<<R(Times \cup {ToString(n)}), R({0, 3600, -3600, 1, -1, 90, -5400, 7200, -86400, n})>>>> \o ZoneSeq(n - 1)
WordSeq(n) == IF n = 0 THEN <<>> ELSE <<R({"96", "H264/90000", "a:b", "x=y", "", ToString(n)})>> \o WordSeq(n - 1)
Call(op) ==
  CASE op = "version" -> [op |-> op, n |-> R(Nums)]
    [] op = "origin"  -> [op |-> op, user |-> R({"-", "jdoe", "a=b"}), id |-> R(Nums \cup Big), ver |-> R(Nums \cup Big), net |-> R({"", "", "IN", "XX"}), at |-> R({"", "", "IP4", "IP6", "YY"}), addr |-> R(Ip4 \cup Ip6 \cup Hosts)]
    [] op \in {"name", "info", "uri", "email", "phone"} -> [op |-> op, x |-> R(Texts)]
    [] op = "conn"    -> [op |-> op, net |-> R({"", "", "IN", "XX"}), at |-> R({"", "", "IP4", "IP6", "YY"}), addr |-> R(Ip4 \cup Ip6), ttl |-> R({"", "1", "9", "10", "127", "255"}), n |-> R({"", "1", "99", "100", "255"})]
    [] op = "connip"  -> [op |-> op, addr |-> R(Ip4 \cup Ip6)]
    [] op = "bw"      -> [op |-> op, t |-> R({"CT", "AS", "X-YZ"}), n |-> R(Nums)]
    [] op \in {"timing", "ntp"} -> [op |-> op, start |-> R(Times), end |-> R(Times)]
    [] op \in {"repeat", "compact"} -> [op |-> op, interval |-> R(Durs), active |-> R(Durs), offs |-> DurSeq(R(1..4))]
    [] op = "zones"   -> [op |-> op, z |-> ZoneSeq(R(1..3))]
    [] op = "key"     -> [op |-> op, m |-> R({"clear", "base64", "prompt", "uri"}), k |-> R({"", "x", "a:b", "YWJj=="})]
    [] op = "method"  -> [op |-> op, m |-> R({"prompt", "clear"})]
    [] op = "flag"    -> [op |-> op, k |-> R({"recvonly", "x-y", "a=b"})]
    [] op = "attr"    -> [op |-> op, k |-> R({"rtpmap", "x", "fmtp"}), vs |-> WordSeq(R(0..3))]
    [] op = "media"   -> [op |-> op, type |-> R({"audio", "video"}), port |-> R({"0", "9", "49170", "65535"}), nports |-> R({"", "1", "2", "10"}), proto |-> R({"RTP/AVP", "udp"}), fmt |-> R({"0", "96 97", "wb"})]
    [] OTHER -> [op |-> op, t |-> R({"v", "a", "m", "x", "~u"}), x |-> R(Texts)]

Init == /\ BInit /\ hist = <<>> /\ fin = FALSE
        /\ k \in (IF Mode = "calls" THEN [op : Ops, n : 1..40] ELSE [op : {""}, n : {3, 6, 12, 25}])
Len2 == IF Mode = "calls" THEN 1 ELSE k.n
Go == ~fin /\ Len(hist) < Len2 /\ UNCHANGED <<k, fin>> /\
  \E c \in {Call(IF Mode = "calls" THEN k.op ELSE R({o \in Ops : Len(hist) >= 0}))} : Add(c) /\ hist' = Append(hist, c)
End == ~fin /\ Len(hist) >= Len2 /\ PrintT("SCRIPT " \o ToJson([kind |-> "build", calls |-> hist, lines |-> lines])) /\ fin' = TRUE /\ UNCHANGED <<lines, k, hist>>
Spec == Init /\ [][Go \/ End]_vars
=============================================================================
