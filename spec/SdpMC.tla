-------------------------------- MODULE SdpMC --------------------------------
(* Every small message: its lines are accepted one by one, in RFC order, and *)
(* file back to the message; different values of a line have different texts; *)
(* a line out of place is refused.                                           *)
EXTENDS Sdp
CONSTANTS MaxMedia, MaxTiming
VARIABLES msg, todo, st, zf
vars == <<msg, todo, st, zf>>

O == <<"-", "1", "1", "IN", "IP4", "10.0.0.5">>
C4(ttl, n) == [on |-> TRUE, net |-> "IN", at |-> "IP4", ip |-> "224.2.1.1", ttl |-> ttl, n |-> n]
C6(n) == [on |-> TRUE, net |-> "IN", at |-> "IP6", ip |-> "FF15::101", ttl |-> "", n |-> n]
Conns == {NoConn, C4("127", "")}
Encs == {NoEnc, [on |-> TRUE, m |-> "prompt", k |-> ""]}
BwsS == {<<>>, <<<<"CT", "154">>, <<"AS", "66">>>>}
AttrsS == {<<>>, <<<<"recvonly", "">>>>, <<<<"x", "a:b">>, <<"x", "c">>>>}
Reps == {<<>>, <<[interval |-> 604800, active |-> 3600, offs |-> <<0, 90000>>]>>}
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
TimingsS == UpTo({[start |-> "0", end |-> "0", rep |-> r] : r \in Reps}, MaxTiming)
MediasS == UpTo({[type |-> "audio", port |-> "49170", nports |-> "", proto |-> "RTP/AVP", fmt |-> "0", title |-> i, conn |-> c, bw |-> b, enc |-> e, attrs |-> a]
                 : i \in {"", "T"}, c \in Conns, b \in BwsS, e \in Encs, a \in AttrsS}, MaxMedia)
Msgs == [version : {"0"}, origin : {O}, name : {"x"}, info : {"", "I"}, uri : {"", "U"}, email : {"", "E"}, phone : {""}, conn : Conns, bw : BwsS,
         timing : TimingsS, tz : {<<>>, <<<<"2882844526", -3600>>>>}, enc : Encs, attrs : AttrsS, media : MediasS]
Init == /\ msg \in Msgs /\ zf \in {FALSE, TRUE} /\ (zf => msg.tz # <<>>)
        /\ todo = Lines(msg, zf) /\ st = Start
Next == todo # <<>> /\ st' = Step1(st, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<msg, zf>>
Spec == Init /\ [][Next]_vars
Accepted == st.at # -1
Back == todo = <<>> => st.msg = msg
\* what never may stand here is refused here
Foreign == {L("x", ""), L("v", "0"), L("o", O)} \cup (IF st.inMedia THEN {L("s", "y"), L("u", "y"), L("e", "y"), L("t", <<"0", "0">>), L("z", <<<<"1", 1>>>>)} ELSE {})
           \cup (IF st.at = 10 THEN {} ELSE {L("r", [interval |-> 1, active |-> 1, offs |-> <<1>>])})
Refused == st.at >= 2 \/ st.inMedia => \A l \in Foreign : Step1(st, l) = Fails

ConnTexts == {NoConn, C4("", ""), C4("127", ""), C4("127", "3"), C6(""), C6("3")} \ {NoConn}
Durs == {0, 1, 59, 60, 61, 3600, 3660, 86400, 90000, 172800, -3600, -1}
ASSUME \A a, b \in ConnTexts : Value(L("c", a), Compact) = Value(L("c", b), Compact) => a = b
ASSUME \A a, b \in Durs : Compact(a) = Compact(b) => a = b
ASSUME \A a \in Durs : Compact(a) \in Spellings(a)
ASSUME \A a, b \in Durs : Spellings(a) \cap Spellings(b) # {} => a = b
=============================================================================
