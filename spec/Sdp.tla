-------------------------------- MODULE Sdp ----------------------------------
(* Session descriptions (RFC 4566): messages, their lines, the text of a     *)
(* line, and a decoder that files lines one by one.  Numbers are strings of  *)
(* digits (they exceed the integers of TLC); durations are seconds.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* message: version name info uri email phone: strings ("": absent)   origin: six strings
\*   conn: [on, net, at, ip, ttl, n] ("" absent)  bw: sequence of <<type, number>>  timing: sequence of
\*   [start, end, rep: sequence of at most one [interval, active, offs]]   tz: sequence of <<start, offset>>
\*   enc: [on, m, k]   attrs: sequence of <<name, value>> ("": flag)   media: sequence of
\*   [type, port, nports, proto, fmt, title, conn, bw, enc, attrs]
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Opt(s, sep) == IF s = "" THEN "" ELSE sep \o s
NoConn == [on |-> FALSE, net |-> "", at |-> "", ip |-> "", ttl |-> "", n |-> ""]
NoEnc == [on |-> FALSE, m |-> "", k |-> ""]
Blank == [version |-> "", origin |-> <<>>, name |-> "", info |-> "", uri |-> "", email |-> "", phone |-> "", conn |-> NoConn, bw |-> <<>>,
          timing |-> <<>>, tz |-> <<>>, enc |-> NoEnc, attrs |-> <<>>, media |-> <<>>]
BlankMedia == [type |-> "", port |-> "", nports |-> "", proto |-> "", fmt |-> "", title |-> "", conn |-> NoConn, bw |-> <<>>, enc |-> NoEnc, attrs |-> <<>>]

\* spellings of a duration
Spellings(d) == {ToString(d)} \cup (IF d = 0 THEN {} ELSE {ToString(d) \o "s"})
                \cup (IF d # 0 /\ d % 60 = 0 THEN {ToString(d \div 60) \o "m"} ELSE {})
                \cup (IF d # 0 /\ d % 3600 = 0 THEN {ToString(d \div 3600) \o "h"} ELSE {})
                \cup (IF d # 0 /\ d % 86400 = 0 THEN {ToString(d \div 86400) \o "d"} ELSE {})
Compact(d) == IF d = 0 THEN "0" ELSE IF d % 86400 = 0 THEN ToString(d \div 86400) \o "d"
              ELSE IF d % 3600 = 0 THEN ToString(d \div 3600) \o "h" ELSE IF d % 60 = 0 THEN ToString(d \div 60) \o "m" ELSE ToString(d)

\* a line: type and (structured) value
L(t, x) == [t |-> t, x |-> x]
Some(t, x) == IF x = "" THEN <<>> ELSE <<L(t, x)>>
Conn(c) == IF c.on THEN <<L("c", c)>> ELSE <<>>
Bws(q) == [i \in 1..Len(q) |-> L("b", q[i])]
Enc(e) == IF e.on THEN <<L("k", e)>> ELSE <<>>
Attrs(q) == [i \in 1..Len(q) |-> L("a", q[i])]
RECURSIVE Timings(_)
Timings(q) == IF q = <<>> THEN <<>> ELSE <<L("t", <<q[1].start, q[1].end>>)>> \o [i \in 1..Len(q[1].rep) |-> L("r", q[1].rep[i])] \o Timings(Tail(q))
Tz(q) == IF q = <<>> THEN <<>> ELSE <<L("z", q)>>
RECURSIVE MediaLines(_)
MediaLines(q) == IF q = <<>> THEN <<>> ELSE
  LET m == q[1] IN <<L("m", [type |-> m.type, port |-> m.port, nports |-> m.nports, proto |-> m.proto, fmt |-> m.fmt])>>
                   \o Some("i", m.title) \o Conn(m.conn) \o Bws(m.bw) \o Enc(m.enc) \o Attrs(m.attrs) \o MediaLines(Tail(q))
\* zfirst: time zones before the time descriptions (as older descriptions have them)
Lines(m, zfirst) ==
  Some("v", m.version) \o <<L("o", m.origin)>> \o Some("s", m.name) \o Some("i", m.info) \o Some("u", m.uri) \o Some("e", m.email) \o Some("p", m.phone)
  \o Conn(m.conn) \o Bws(m.bw) \o (IF zfirst THEN Tz(m.tz) ELSE <<>>) \o Timings(m.timing) \o (IF zfirst THEN <<>> ELSE Tz(m.tz))
  \o Enc(m.enc) \o Attrs(m.attrs) \o MediaLines(m.media)

\* text of a line's value; D: how a duration is written
Value(l, D(_)) ==
  CASE l.t \in {"v", "s", "i", "u", "e", "p"} -> l.x
    [] l.t = "o" -> Join(l.x, " ")
    [] l.t = "c" -> Join(<<l.x.net, l.x.at, l.x.ip \o Opt(l.x.ttl, "/") \o Opt(l.x.n, "/")>>, " ")
    [] l.t = "b" -> l.x[1] \o ":" \o l.x[2]
    [] l.t = "t" -> Join(l.x, " ")
    [] l.t = "r" -> Join(<<D(l.x.interval), D(l.x.active)>> \o [i \in 1..Len(l.x.offs) |-> D(l.x.offs[i])], " ")
    [] l.t = "z" -> Join([i \in 1..(2 * Len(l.x)) |-> IF i % 2 = 1 THEN l.x[(i + 1) \div 2][1] ELSE D(l.x[i \div 2][2])], " ")
    [] l.t = "k" -> l.x.m \o Opt(l.x.k, ":")
    [] l.t = "a" -> l.x[1] \o Opt(l.x[2], ":")
    [] l.t = "m" -> Join(<<l.x.type, l.x.port \o Opt(l.x.nports, "/"), l.x.proto, l.x.fmt>>, " ")

-----------------------------------------------------------------------------
(* The decoder: state and one step per line                                  *)
Order(t) == CASE t = "v" -> 1 [] t = "o" -> 2 [] t = "s" -> 3 [] t = "i" -> 4 [] t = "u" -> 5 [] t = "e" -> 6 [] t = "p" -> 7 [] t = "c" -> 8
              [] t = "b" -> 9 [] t = "z" -> 12 [] t = "k" -> 13 [] t = "a" -> 14 [] OTHER -> 0
MOrder(t) == CASE t = "i" -> 1 [] t = "c" -> 2 [] t = "b" -> 3 [] t = "k" -> 4 [] t = "a" -> 5 [] OTHER -> 0
Start == [at |-> 0, inMedia |-> FALSE, msg |-> Blank]
Fails == [at |-> -1, inMedia |-> FALSE, msg |-> Blank]
SetMedia(msg, f(_)) == [msg EXCEPT !.media[Len(msg.media)] = f(@)]
FileMedia(msg, l) ==
  LET F(m) == CASE l.t = "i" -> [m EXCEPT !.title = l.x] [] l.t = "c" -> [m EXCEPT !.conn = l.x] [] l.t = "b" -> [m EXCEPT !.bw = Append(@, l.x)]
                [] l.t = "k" -> [m EXCEPT !.enc = l.x] [] l.t = "a" -> [m EXCEPT !.attrs = Append(@, l.x)]
  IN SetMedia(msg, F)
File(msg, l) ==
  CASE l.t = "v" -> [msg EXCEPT !.version = l.x] [] l.t = "o" -> [msg EXCEPT !.origin = l.x] [] l.t = "s" -> [msg EXCEPT !.name = l.x]
    [] l.t = "i" -> [msg EXCEPT !.info = l.x] [] l.t = "u" -> [msg EXCEPT !.uri = l.x] [] l.t = "e" -> [msg EXCEPT !.email = l.x]
    [] l.t = "p" -> [msg EXCEPT !.phone = l.x] [] l.t = "c" -> [msg EXCEPT !.conn = l.x] [] l.t = "b" -> [msg EXCEPT !.bw = Append(@, l.x)]
    [] l.t = "z" -> [msg EXCEPT !.tz = l.x] [] l.t = "k" -> [msg EXCEPT !.enc = l.x] [] l.t = "a" -> [msg EXCEPT !.attrs = Append(@, l.x)]
Repeatable(t) == t \in {"b", "a"}
Step(st, l) ==
  CASE st.at = -1 -> Fails
    [] l.t = "m" -> [at |-> 0, inMedia |-> TRUE, msg |-> [st.msg EXCEPT !.media = Append(@, BlankMedia @@ <<>>)]]
    [] st.inMedia -> LET p == MOrder(l.t) IN
         IF p > st.at \/ (p = st.at /\ p # 0 /\ Repeatable(l.t)) THEN [st EXCEPT !.at = p, !.msg = FileMedia(@, l)] ELSE Fails
    \* 10: after a time description, 11: after its repeat times, 9 with tz set: zones before the times
    [] l.t = "t" -> IF st.at <= 11 THEN [st EXCEPT !.at = 10, !.msg.timing = Append(@, [start |-> l.x[1], end |-> l.x[2], rep |-> <<>>])] ELSE Fails
    [] l.t = "r" -> IF st.at = 10 THEN [st EXCEPT !.at = 11, !.msg.timing[Len(st.msg.timing)].rep = <<l.x>>] ELSE Fails
    [] l.t = "z" /\ st.at < 10 /\ st.msg.tz = <<>> -> [st EXCEPT !.at = 9, !.msg.tz = l.x]
    [] l.t = "z" /\ st.msg.tz # <<>> -> Fails
    [] OTHER -> LET p == Order(l.t) IN
         IF p > st.at \/ (p = st.at /\ p # 0 /\ Repeatable(l.t)) THEN [st EXCEPT !.at = p, !.msg = File(@, l)] ELSE Fails
\* a media line carries the description's own fields
Step1(st, l) == LET n == Step(st, l) IN
  IF l.t = "m" /\ n.at # -1
  THEN LET F(m) == [m EXCEPT !.type = l.x.type, !.port = l.x.port, !.nports = l.x.nports, !.proto = l.x.proto, !.fmt = l.x.fmt]
       IN [n EXCEPT !.msg = SetMedia(@, F)]
  ELSE n
RECURSIVE Run(_, _)
Run(st, ls) == IF ls = <<>> THEN st ELSE Run(Step1(st, Head(ls)), Tail(ls))
=============================================================================
